------------------------------ MODULE TraceMaint ------------------------------
(* Maintenance scripts run on the files of a grid.                            *)
EXTENDS Maint, Json, IOUtils
VARIABLES i, items, fs, tgt, pars
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
View(u) == [d |-> u.d, f |-> u.f, c |-> u.c, from |-> u.from, n |-> u.n, burn |-> u.burn]
Views(s) == {View(u) : u \in s}
RenamedPars(e) == MapSeq(LAMBDA p: IF e.confirm /\ \E k \in 1..Len(items): items[k].name = p.run /\ Matches(items[k], e.f)
                                   THEN [p EXCEPT !.ps = RenameAll(@, e.m, e.labels), !.best = RenameAll(@, e.m, e.labels)] ELSE p, pars)
NewFs(e) == CASE e.op = "files" -> Range_(e.fs)
              [] e.op = "clean" -> Cleaned(items, fs, e.f, e.o)
              [] OTHER -> fs
NewTgt(e) == CASE e.op = "files" -> {}
               [] e.op = "copy" -> Onto(IF e.fresh THEN {} ELSE tgt, Copied(items, fs, e.f, e.o))
               [] e.op = "extract" -> Onto(IF e.fresh THEN {} ELSE tgt, Extracted(items, fs, e.f, e.o))
               [] OTHER -> tgt
NewPars(e) == CASE e.op = "params" -> e.pars [] e.op = "rename" -> RenamedPars(e) [] OTHER -> pars
\* (no two files are extracted with the same name)
Expected(e) == CASE e.op = "clean" -> [fs |-> Views(NewFs(e)), listed |-> Views(ToClean(items, fs, e.f, e.o))]
                 [] e.op \in {"copy", "extract"} -> [fs |-> Views(fs), tgt |-> NewTgt(e)]
                 [] e.op = "rename" -> NewPars(e)
                 [] OTHER -> <<>>
Agrees(e) == CASE e.op = "clean" -> Range_(e.obs.fs) = Views(NewFs(e)) /\ {[d |-> u.d, f |-> u.f] : u \in Range_(e.obs.listed)} = {[d |-> u.d, f |-> u.f] : u \in ToClean(items, fs, e.f, e.o)}
                                      /\ Len(e.obs.listed) = Cardinality(ToClean(items, fs, e.f, e.o))
               [] e.op \in {"copy", "extract"} -> Range_(e.obs.fs) = Views(fs) /\ Range_(e.obs.tgt) = NewTgt(e)
               [] e.op = "rename" -> e.obs = NewPars(e)
               [] OTHER -> TRUE
Init == i = 1 /\ items = <<>> /\ fs = {} /\ tgt = {} /\ pars = <<>>
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       /\ items' = IF e.op = "grid" THEN e.items ELSE items
       /\ fs' = NewFs(e) /\ tgt' = (IF e.op = "copy" THEN IF e.zip THEN tgt ELSE NewTgt(e) ELSE NewTgt(e)) /\ pars' = NewPars(e)
       /\ IF ~e.err /\ Agrees(e) THEN TRUE ELSE PrintT(<<"MISMATCH", i, Expected(e)>>)
Spec == Init /\ [][Step]_<<i, items, fs, tgt, pars>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
