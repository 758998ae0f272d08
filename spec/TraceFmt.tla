------------------------------ MODULE TraceFmt ------------------------------
(* Numbers, parameter results and tables as printed by the code.              *)
EXTENDS Fmt, Json, IOUtils
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
OK(e) == CASE e.op = "start" -> TRUE
    [] e.obs.err -> FALSE
    [] e.op = "num" -> FigsOK(e.obs.p, Num(e.m, e.e - e.obs.x), e.sf, e.plus, 0) /\ (e.sci \/ e.obs.x = 0)
    [] e.op = "fig" -> WithErr(e.obs.n[1], e.obs.n[2], e.obs.n[3], Num(e.v, e.e), Num(e.u, e.e), Num(e.l, e.e), e.obs.x, e.esf, e.plus, 0) /\ (e.sci \/ e.obs.x = 0)
    [] e.op = "tex" -> LimCell(e.obs.c, e.q, e.limit, e.esf, e.tol) /\ e.obs.label = e.q.label
    [] e.op = "missing" -> e.obs.none
    [] e.op = "table" -> TableOK(e, e.obs)
    [] OTHER -> FALSE
Init == i = 1
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF OK(Trace[i]) THEN TRUE ELSE PrintT(<<"MISMATCH", i, IF Trace[i].op = "table" /\ ~Trace[i].obs.err THEN BadBlocks(Trace[i], Trace[i].obs) ELSE {}>>)
Spec == Init /\ [][Step]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
