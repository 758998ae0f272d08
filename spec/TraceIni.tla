------------------------------ MODULE TraceIni ------------------------------
(* Settings files read, looked up, changed and saved by the code.             *)
EXTENDS Ini, Json, IOUtils
VARIABLES i, objs, disk, dead
vars == <<i, objs, disk, dead>>
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
ToFs(l) == FoldLeft(LAMBDA a, x: [f \in DOMAIN a \cup {x.f} |-> IF f = x.f THEN x.lines ELSE a[f]], [f \in {} |-> <<>>], l)
SameKV(p, l) == DOMAIN p = {l[k].k : k \in 1..Len(l)} /\ Len(l) = Cardinality(DOMAIN p) /\ \A k \in 1..Len(l): p[l[k].k] = l[k].v
ReadOK(fs, e) == LET o == e.obs IN
    \/ o.err /\ (Missing(fs, e.main) \/ SetTwice(fs, e.main) \/ Clash(fs, e.main))
    \/ ~o.err /\ ~Missing(fs, e.main) /\ ~SetTwice(fs, e.main) /\ o.orig = e.main
          /\ (IF Clash(fs, e.main) THEN \A x \in Range_(Own(fs, e.main)): \E k \in 1..Len(o.params): o.params[k].k = x.k /\ o.params[k].v = x.v
              ELSE SameKV(Result(fs, e.main), o.params))
GetOK(e) == LET g == Get(e.kind, IF e.set THEN e.text ELSE Undef, IF e.hasdef THEN Ok(e.def) ELSE Bad) IN
    IF g.ok THEN ~e.obs.err /\ e.obs.v = g.v ELSE e.obs.err
\* objects
ToVal(x) == [t |-> x.t, s |-> x.s]
ToParams(l) == FoldLeft(LAMBDA a, x: [f \in DOMAIN a \cup {x.k} |-> IF f = x.k THEN ToVal(x) ELSE a[f]], [f \in {} |-> Undef], l)
ValEq(v, x) == CASE v.t = "bs" -> x.t = "s" /\ x.b = (StartsWith(v.s, "T"))
                 [] v.t = "ls" -> x.t = "s" /\ x.l = Tokens(v.s)
                 [] v.t = "l" -> x.t = "l" /\ x.l = Tokens(v.s)
                 [] v.t = "b" -> x.t = "b" /\ x.b = (StartsWith(v.s, "T"))
                 [] OTHER -> x.t = v.t /\ x.s = v.s
ObjEq(o, l) == /\ DOMAIN o.params = {l[k].k : k \in 1..Len(l)} /\ Len(l) = Cardinality(DOMAIN o.params)
               /\ \A k \in 1..Len(l): ValEq(o.params[l[k].k], l[k])
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == i = 1 /\ objs = [x \in {} |-> 0] /\ disk = [x \in {} |-> 0] /\ dead = FALSE
Fail(x) == dead' = TRUE /\ PrintT(<<"MISMATCH", i, x>>)
Check(ok, x) == IF ok THEN dead' = dead ELSE Fail(x)
AllSame(os, e) == ~e.obs.err /\ \A k \in 1..Len(e.obs.objs): ObjEq(os[e.obs.objs[k].o], e.obs.objs[k].params)
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN objs' = [x \in {} |-> 0] /\ disk' = [x \in {} |-> 0] /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<objs, disk, dead>>
       ELSE IF e.op = "read" THEN LET fs == ToFs(e.files) IN
             UNCHANGED <<objs, disk>> /\ Check(ReadOK(fs, e), IF Missing(fs, e.main) THEN "missing file" ELSE <<SetTwice(fs, e.main), Clash(fs, e.main), Result(fs, e.main)>>)
       ELSE IF e.op = "get" THEN UNCHANGED <<objs, disk>> /\ Check(GetOK(e), Get(e.kind, IF e.set THEN e.text ELSE Undef, IF e.hasdef THEN Ok(e.def) ELSE Bad))
       ELSE IF e.op = "save" THEN
             LET o == objs[e.o] IN
             /\ disk' = Put(disk, e.f, Reload(o, e.obs.order)) /\ objs' = objs
             /\ Check(AllSame(objs, e) /\ ToSet(e.obs.order) = DOMAIN o.params /\ SelectSeq(e.obs.order, LAMBDA k: k \in Range_(ReadKeys(o))) = ReadKeys(o), o)
       ELSE LET os == CASE e.op = "new" -> Put(objs, e.o, [params |-> ToParams(e.params), order |-> <<>>])
                        [] e.op = "load" -> Put(objs, e.o, disk[e.f])
                        [] e.op = "set" -> Put(objs, e.o, SetKey(objs[e.o], e.k, ToVal(e.v)))
                        [] e.op = "del" -> Put(objs, e.o, FoldLeft(LAMBDA a, k: DelKey(a, k), objs[e.o], e.ks))
                        [] e.op = "tags" -> Put(objs, e.o, Tags(objs[e.o], e.tag, e.txt))
            IN objs' = os /\ disk' = disk /\ Check(AllSame(os, e), os)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
