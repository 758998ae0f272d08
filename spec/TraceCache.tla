----------------------------- MODULE TraceCache -----------------------------
(* Recorded histories of loads through the cache.  The files are tracked by  *)
(* the specification (Cache.tla); every load observed must be FreshLoad.     *)
(* obs.files: sequence of <<chain, version, rows>> in the order loaded       *)
(* obs.aux: version of the ranges file used; obs.sets: the settings whose    *)
(* fresh attributes equal those of the object returned; obs.same: no chain   *)
(* file and no argument of the caller was modified.                          *)
EXTENDS Cache, Json, IOUtils
VARIABLES i, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
vars == <<chains, aux, cache, clock, ver, last, i, dead>>
Init == CInit /\ i = 1 /\ dead = FALSE
\* rows kept of n after the burn-in of settings: [num |-> rows] or [num |-> a, den |-> b]
Kept(n, b) == n - Min2(n, IF b.den = 0 THEN b.num ELSE (2 * n * b.num + b.den) \div (2 * b.den))
Order == SetToSortSeq(DOMAIN chains, LAMBDA a, b: a < b)
Expected(e) == [k \in 1..Len(Order) |-> <<Order[k], chains[Order[k]].v, Kept(e.rows, e.burn)>>]
Good(e) == /\ e.obs.err = "" /\ e.obs.same
           /\ e.obs.files = Expected(e)
           /\ e.obs.aux = aux.v
           /\ e.set \in Range_(e.obs.sets)
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       CASE e.op = "new" -> /\ chains' = [c \in 1..2 |-> [v |-> c, t |-> c]] /\ aux' = [v |-> 3, t |-> 3] /\ cache' = NoCache
                            /\ clock' = 4 /\ ver' = 4 /\ last' = last /\ dead' = FALSE
         [] e.op = "load" -> /\ Load(e.set, e.nocache)
                             /\ IF dead \/ Good(e) THEN dead' = dead
                                ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, <<Expected(e), aux.v, e.set>>>>)
         [] e.op = "race" -> /\ IF e.obs.raced
                                THEN LET s == e.set IN
                                     /\ chains' = [chains EXCEPT ![e.c] = [v |-> ver, t |-> clock]]
                                     /\ ver' = ver + 1 /\ clock' = clock + 2 /\ UNCHANGED <<aux, cache, last>>
                                ELSE UNCHANGED <<chains, aux, cache, clock, last>> /\ ver' = ver + 1
                             /\ IF dead \/ Good(e) THEN dead' = dead
                                ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, <<Expected(e), aux.v, e.set>>>>)
         [] e.op = "write" -> Write(e.c, e.old) /\ dead' = dead
         [] e.op = "remove" -> RemoveFile(e.c) /\ dead' = dead
         [] e.op = "aux" -> Aux(e.exists) /\ dead' = dead
         [] e.op = "damage" -> UNCHANGED <<chains, aux, cache, clock, ver, last, dead>>
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
