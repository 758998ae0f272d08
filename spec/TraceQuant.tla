----------------------------- MODULE TraceQuant -----------------------------
(* Limits and likelihood statistics recorded from the code.  Every query is   *)
(* answered from the samples as they are at that time; prepared data answers  *)
(* from the samples as they were when it was prepared.                        *)
EXTENDS Quant, Json, IOUtils
VARIABLES i, xs, w, L, prep
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Vec(e) == IF e.src = "vec" THEN e.vec ELSE xs[e.j]
Wts(e) == IF e.ww = <<>> THEN w ELSE e.ww
Data(e) == [x |-> SliceOf(Vec(e), e.a, e.b), w |-> SliceOf(Wts(e), e.a, e.b)]
Use(e) == IF e.prep > 0 THEN prep[e.prep] ELSE Data(e)
Want(e) == CASE e.op = "conf" -> [k \in 1..Len(e.fr) |-> Limit(Use(e).x, Use(e).w, e.fr[k], e.upper)]
    [] e.op = "two" -> TwoTail(Vec(e), w, e.fr[1])
    [] e.op = "tails" -> TwoTail(xs[e.j], w, e.fr[1])
    [] e.op = "one" -> <<Limit(xs[e.j], w, Compl(e.fr[1]), e.upper)>>
    [] OTHER -> <<>>
\* the bounds of every contour come from one region for all the parameters
LikeOK(e) == /\ \A c \in 1..Len(e.fr): \E S \in Regions(L, w, e.fr[c]):
                   \A j \in 1..Len(xs): e.obs.bot[j][c] = Bot(xs[j], S) /\ e.obs.top[j][c] = Top(xs[j], S)
             /\ \E b \in BestFit(L): e.obs.like = L[b] /\ \A j \in 1..Len(xs): e.obs.best[j] = xs[j][b]
OK(e) == CASE e.op = "like" -> LikeOK(e)
    [] e.op \in {"data", "filter", "prep", "start"} -> TRUE
    [] OTHER -> e.obs = Want(e)
Init == i = 1 /\ xs = <<>> /\ w = <<>> /\ L = <<>> /\ prep = <<>>
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       /\ CASE e.op = "start" -> xs' = <<>> /\ w' = <<>> /\ L' = <<>> /\ prep' = <<>>
            [] e.op = "data" -> xs' = e.xs /\ w' = e.w /\ L' = e.L /\ prep' = prep
            [] e.op = "filter" -> xs' = MapSeq(LAMBDA c: Keep(c, e.where), xs) /\ w' = Keep(w, e.where) /\ L' = Keep(L, e.where) /\ prep' = prep
            [] e.op = "prep" -> prep' = Append(prep, Data(e)) /\ UNCHANGED <<xs, w, L>>
            [] OTHER -> UNCHANGED <<xs, w, L, prep>>
       /\ IF OK(e) THEN TRUE ELSE PrintT(<<"MISMATCH", i, IF e.op = "like" THEN <<L, w>> ELSE Want(e)>>)
Spec == Init /\ [][Step]_<<i, xs, w, L, prep>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
