----------------------------- MODULE TraceCovmat -----------------------------
(* Operations on covariance matrices recorded from the code.                   *)
EXTENDS Covmat, Json, IOUtils
VARIABLES i, objs, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nxt(e) == CASE e.op = "new" -> Put(objs, e.o, [names |-> e.names, m |-> e.m])
    [] e.op = "scale" -> Put(objs, e.o, Scale(objs[e.o], e.n, e.k))
    [] e.op = "merge" -> Put(objs, e.o, MergeCov(objs[e.a], objs[e.b]))
    [] e.op = "copy" -> Put(objs, e.o, objs[e.a])
    [] e.op = "comb" -> Put(objs, e.o, FoldLeft(LAMBDA c, k: MergeCov(c, objs[k]), objs[e.l[1]], SubSeq(e.l, 2, Len(e.l))))
    [] e.op = "scaledir" -> [o \in DOMAIN objs \cup {e.to[k] : k \in 1..Len(e.to)} |->
            IF \E k \in 1..Len(e.to): e.to[k] = o
            THEN FoldLeft(LAMBDA c, x: Scale(c, x.n, x.k), objs[e.from[CHOOSE k \in 1..Len(e.to): e.to[k] = o]], e.fac)
            ELSE objs[o]]
    [] OTHER -> objs
ObOK(ob, e) == /\ {x.o : x \in Range_(e.obs.all)} = DOMAIN ob
               /\ \A x \in Range_(e.obs.all): x.names = ob[x.o].names /\ x.m = ob[x.o].m
               /\ \A x \in Range_(e.obs.all): IsCorr(ob[x.o], x.corr)
SampOK(e) == LET nd == NonDerIdx(e.info) IN
    /\ e.obs.names = [k \in 1..Len(nd) |-> e.info[nd[k]].name]
    /\ \A r \in 1..Len(e.obs.mats): e.obs.mats[r].m = SampleMat(e.rows, IF e.obs.mats[r].idx = <<0>> THEN nd ELSE e.obs.mats[r].idx)
Init == i = 1 /\ objs = [o \in {} |-> 0] /\ dead = FALSE
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN objs' = [o \in {} |-> 0] /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<objs, dead>>
       ELSE LET nx == Nxt(e) IN
            /\ objs' = nx
            /\ IF e.obs.err = "" /\ (IF e.op = "samples" THEN SampOK(e) ELSE ObOK(nx, e)) THEN dead' = dead
               ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, nx>>)
Spec == Init /\ [][Step]_<<i, objs, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
