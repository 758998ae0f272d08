------------------------------ MODULE TraceLookup ------------------------------
(* Samples loaded by name by the code.                                           *)
EXTENDS Lookup, Json, IOUtils
VARIABLES i, locs, st
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
None == [out |-> [err |-> FALSE, src |-> <<>>, set |-> <<>>, id |-> 0]]
Result(e) ==
    CASE e.op = "load" -> Load(locs, st, e.n, e.mem, e.set, e.id)
      [] e.op = "file" -> LoadFile(st, e.n, e.src, e.mem, e.set, e.id)
      [] e.op = "remove" -> [out |-> None.out, st |-> Forget(st, e.n)]
      [] e.op = "reset" -> [out |-> None.out, st |-> Reset(st, e.set, e.first)]
      [] e.op = "add" -> [out |-> None.out, st |-> AddLoc(st, e.loc)]
      [] e.op = "new" -> [out |-> None.out, st |-> Fresh(e.locs, e.set)]
      [] OTHER -> [out |-> None.out, st |-> st]
\* rows cut at the start: none if they were cut before the chains were written
Cut(e, s) == IF s # <<>> /\ e.burned THEN [s EXCEPT ![1] = <<0>>] ELSE s
OK(e, r) ==
    CASE e.op \in {"load", "file"} -> IF r.out.err THEN e.obs.err = "notfound"
                                      ELSE /\ e.obs.err = "" /\ e.obs.src = r.out.src /\ e.obs.id = r.out.id
                                           /\ e.obs.set = Cut(e, r.out.set) /\ e.obs.name = e.obs.wantname
      [] e.op = "locs" -> TRUE
      [] e.op = "tree" -> /\ e.obs.err = ""
                          /\ \A k \in 1..Len(e.reqs): e.obs.got[k] = InTree(e.items, e.reqs[k].dirs, e.reqs[k].toks, e.reqs[k].literal)
                          /\ \A d \in Range_(e.obs.tops): Range_(d.names) = {TreeName(e.items, j) : j \in {x \in 1..Len(e.items): e.items[x].dirs[1] = d.dir}}
      [] OTHER -> e.obs.err = ""
Init == i = 1 /\ locs = <<>> /\ st = Fresh(<<>>, <<>>)
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i]  r == Result(e) IN
           /\ locs' = (IF e.op = "locs" THEN e.locs ELSE locs)
           /\ st' = r.st
           /\ IF OK(e, r) THEN TRUE ELSE PrintT(<<"MISMATCH", i, IF e.op = "tree" THEN [k \in 1..Len(e.reqs) |-> InTree(e.items, e.reqs[k].dirs, e.reqs[k].toks, e.reqs[k].literal)] ELSE r.out>>)
Spec == Init /\ [][Step]_<<i, locs, st>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
