---------------------------- MODULE TraceWide ----------------------------
(* Reweighting with any dynamic range, in exponents of two: starting from    *)
(* unit weights the log2 relative weight of a row is -(d - min d); rows more *)
(* than 1000 powers of two below the largest may underflow.                  *)
EXTENDS VBase, Json, IOUtils
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == i = 1
OK(e) == LET lo == MinOf(Range_(e.d)) IN
    /\ e.obs.err = ""
    /\ Len(e.obs.lw) = Len(e.d)
    /\ \A k \in 1..Len(e.d): LET x == -(e.d[k] - lo) IN
          IF x < -999 THEN e.obs.lw[k] <= -999 ELSE e.obs.lw[k] = x
    /\ \A k \in 1..Len(e.d): e.obs.l[k] = e.l0[k] + e.d[k]
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF OK(Trace[i]) THEN TRUE ELSE PrintT(<<"MISMATCH", i, Trace[i].d>>)
Spec == Init /\ [][Step]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
