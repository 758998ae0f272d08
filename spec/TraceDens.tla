------------------------------ MODULE TraceDens ------------------------------
(* Densities as computed by the code.                                         *)
EXTENDS Dens, Json, IOUtils
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Near(a, b, tol) == (a - b <= tol) /\ (b - a <= tol)
\* every requested contour, in order
LevelsOK(e) == IF e.obs.err THEN \E k \in 1..Len(e.c): MayFail(e.dims, e.P, e.half, e.c[k], e.miss)
               ELSE /\ Len(e.obs.lev) = Len(e.c)
                    /\ \A k \in 1..Len(e.c): LevelOK(e.dims, e.P, e.half, e.c[k], e.miss, e.obs.lev[k]) /\ ~MustFail(e.dims, e.P, e.half, e.c[k], e.miss)
\* values times 10^5 after normalization; the volume of a cell is e.vol / 8
NormOK(e) == /\ ~e.obs.err
             /\ Len(e.obs.Q) = Len(e.P)
             /\ LET s == IF e.by = "max" THEN MaxOf(Range_(e.P)) ELSE Integral(e.dims, e.P) * e.vol
                    u == IF e.by = "max" THEN 1 ELSE Pow2(Dim(e.dims)) * 8
                IN \A k \in 1..Len(e.P): Near(e.obs.Q[k] * s, e.P[k] * u * 10000, s)
\* values at the points of the grid, and zero outside of it in one dimension (times 1000)
EvalOK(e) == /\ ~e.obs.err /\ Len(e.obs.at) = Len(e.P)
             /\ \A k \in 1..Len(e.P): Near(e.obs.at[k], 1000 * e.P[k], 2)
             /\ \A k \in 1..Len(e.obs.out): e.obs.out[k] = 0
             /\ \A k \in 1..Len(e.obs.mid): Near(e.obs.mid[k], e.mid[k], 2)
\* an interval of (nearly) equal density at both ends with the fraction of the probability (in 1/10000, densities of the maximum)
LimOK(e) == /\ ~e.obs.err
            /\ Len(e.obs.l) = Len(e.p)
            /\ \A k \in 1..Len(e.p): LET o == e.obs.l[k] IN
                 /\ Near(o.mass, e.p[k], e.tol)
                 /\ IF o.bot THEN o.mn = "edge" /\ o.lo0 + 60 >= o.dhi ELSE o.lo0 <= o.dlo + 60
                 /\ IF o.top THEN o.mx = "edge" /\ o.hi0 + 60 >= o.dlo ELSE o.hi0 <= o.dhi + 60
                 /\ (~o.bot /\ ~o.top) => Near(o.dlo, o.dhi, 60)
\* densities of samples: the first parameter along x; inside the bounds; contours as in the settings
SampOK(e) == /\ ~e.obs.err /\ e.obs.shape /\ e.obs.nonneg /\ e.obs.maxone
             /\ \A k \in 1..Len(e.obs.inside): e.obs.inside[k]
             /\ \A k \in 1..Len(e.mode): Near(e.obs.mode[k], e.mode[k], 150)
             /\ (e.corr > 0 => e.obs.same > e.obs.opp) /\ (e.corr < 0 => e.obs.same < e.obs.opp)
             /\ Len(e.obs.cont) = Len(e.cont)
             /\ \A k \in 1..Len(e.cont): Near(e.obs.cont[k], e.cont[k], 120)
OK(e) == CASE e.op = "start" -> TRUE
    [] e.op = "level" -> LevelsOK(e)
    [] e.op = "norm" -> NormOK(e)
    [] e.op = "eval" -> EvalOK(e)
    [] e.op = "lim" -> LimOK(e)
    [] e.op = "samp" -> SampOK(e)
    [] e.op = "small" -> ~e.obs.err /\ e.obs.maxone /\ e.obs.near
Init == i = 1
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF OK(Trace[i]) THEN TRUE ELSE PrintT(<<"MISMATCH", i, Trace[i].op>>)
Spec == Init /\ [][Step]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
