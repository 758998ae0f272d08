---------------------------- MODULE TraceStats ----------------------------
(* Recorded query/modify histories: each query event lists the versions of   *)
(* the sample set (obs.vers) whose freshly computed statistic equals the     *)
(* reported one; the current version must be among them.                     *)
EXTENDS VBase, Json, IOUtils
VARIABLES i, ver, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == i = 1 /\ ver = 0 /\ dead = FALSE
Step ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       CASE e.op = "new" -> ver' = 0 /\ dead' = FALSE
         [] e.op = "mod" -> /\ ver' = ver + 1
                            /\ IF e.obs.err = "" \/ dead THEN dead' = dead
                               ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, "modification must succeed">>)
         [] e.op = "query" -> /\ ver' = ver
                              /\ IF dead \/ (e.obs.err = "" /\ ver \in Range_(e.obs.vers)) THEN dead' = dead
                                 ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, ver>>)
Spec == Init /\ [][Step]_<<i, ver, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
