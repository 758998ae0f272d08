--------------------------- MODULE TraceChains ---------------------------
(* Checks executions recorded from the real code against Chains.           *)
(* One event per line: [sc, op, args..., obs]; op = "new" starts a         *)
(* scenario.  sts is the set of specification states compatible with what   *)
(* has been observed so far; an observation matching none of the allowed    *)
(* successors is reported as MISMATCH.                                      *)
EXTENDS Chains, Json, IOUtils
VARIABLES i, sts
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Has(e, f) == f \in DOMAIN e

RowEq(r, o, hasL, prop) == (prop \/ r.w = o.w) /\ (~hasL \/ r.l = o.l) /\ r.x = o.x
PropEq(rs, os) ==       \* weights proportional
    /\ \A k \in 1..Len(os): os[k].w >= 0
    /\ \A k \in 1..Len(rs): rs[k].w * os[1].w = rs[1].w * os[k].w
    /\ (Len(rs) > 0 /\ \E k \in 1..Len(rs): rs[k].w > 0) => \E k \in 1..Len(os): os[k].w > 0
RowsEq(st, rs, os) ==
    /\ Len(rs) = Len(os)
    /\ \A k \in 1..Len(rs): RowEq(rs[k], os[k], st.hasL, st.prop)
    /\ st.prop => PropEq(rs, os)
SepEq(st, o) ==
    /\ Len(o) = Len(st.chains)
    /\ \A c \in 1..Len(o): Len(o[c]) = Len(st.chains[c])
    /\ RowsEq(st, Rows(st), Flat(o))
StatEq(st, o) ==      \* o: [norm, sx (mean*norm), cov (cov*norm^2)] ; norm in weight units / wden
    LET r == Rows(st) IN
    /\ o.norm = Norm(r)
    /\ \A j \in 1..Len(st.names): o.sx[j] = SumX(r, j) /\ o.var[j] = CovN2(r, j, j)
    /\ \A j, k \in 1..Len(st.names): o.cov[j][k] = CovN2(r, j, k)
    /\ Len(o.sx) = Len(st.names) /\ Len(o.cov) = Len(st.names)
Match(st, o) ==
    /\ Has(o, "n") => o.n = NRows(st)
    /\ Has(o, "rows") => RowsEq(st, Rows(st), o.rows)
    /\ Has(o, "names") => st.names = o.names
    /\ Has(o, "sep") => SepEq(st, o.sep)
    /\ Has(o, "stat") => StatEq(st, o.stat)
    /\ Has(o, "gr") => LET g == GRequal(st.chains) IN Reduce(g[1], g[2]) = o.gr
    /\ Has(o, "ver") => o.cur \in Range_(o.ver)
    /\ Has(o, "same") => o.same

\* index lists returned by thinning without modifying: multiplicities of each row
HitsIn(ix, n) == [k \in 1..n |-> Cardinality({m \in 1..Len(ix) : ix[m] = k - 1})]
Nondecreasing(s) == \A k \in 1..(Len(s) - 1): s[k] <= s[k+1]
ThinIxOK(st, e) ==
    LET ws == WsOf(Rows(st), st.wden) n == Len(ws) o == e.obs IN
    /\ Has(o, "ix") => ThinOK(ws, e.k, HitsIn(o.ix, n)) /\ Nondecreasing(o.ix) /\ (\A m \in 1..Len(o.ix): o.ix[m] \in 0..(n-1))
    /\ Has(o, "uix") => /\ Nondecreasing([m \in 1..Len(o.uix) |-> o.uix[m][1]])
                        /\ ThinOK(ws, e.k, [k \in 1..n |-> SumSeq([m \in 1..Len(o.uix) |-> IF o.uix[m][1] = k - 1 THEN o.uix[m][2] ELSE 0])])
\* file of thinned samples: the rows of the given (0-based) indices in that order, unit weights (cooled: reweighted)
FileRows(st, e) ==
    LET r == Rows(st)
        one == [m \in 1..Len(e.ix) |-> [r[e.ix[m] + 1] EXCEPT !.w = 1]]
        u == [st EXCEPT !.chains = <<one>>]
    IN IF e.num = e.den THEN one ELSE Rows(Cool(u, e.num, e.den))
ThinFileOK(st, e) ==
    /\ Has(e.obs, "file")
    /\ LET fr == FileRows(st, e) o == e.obs.file IN
       /\ Len(fr) = Len(o)
       /\ \A k \in 1..Len(fr): fr[k].l = o[k].l /\ fr[k].x = o[k].x /\ (e.num = e.den => o[k].w = 1)
       /\ (e.num # e.den /\ Len(fr) > 0) => PropEq(fr, o)
\* random single samples: N draws with thinning factor tnum/tden; cnt[i] = times row i was taken; each draw takes
\* a row at most once, in order (obs.ordered); chance of a row = weight / (largest weight * factor)
PickOK(st, e) ==
    LET r == Rows(st) n == Len(r) o == e.obs
        mx == MaxOf({r[k].w : k \in 1..n})
    IN /\ Has(o, "cnt") /\ Len(o.cnt) = n /\ o.ordered
       /\ \A k \in 1..n:
            LET p == r[k].w * e.tden   q == mx * e.tnum   d == o.cnt[k] * q - e.draws * p IN
            /\ o.cnt[k] \in 0..e.draws
            /\ p >= q => o.cnt[k] = e.draws
            /\ p = 0 => o.cnt[k] = 0
            /\ (p > 0 /\ p < q) => (d \div q) * (d \div q) <= 36 * (((e.draws * p) \div q) + 2)
\* appending the samples of another set for the common parameters (in the order of the other set), each set
\* carrying total weight in the ratio sw1 : sw2 (app: simply appended)
MergeOK(st, e) ==
    LET a == Rows(st)  b == e.other.rows
        common == SelectIdx(e.other.names, LAMBDA j: e.other.names[j] \in Range_(st.names))
        ixA == [j \in 1..Len(common) |-> CHOOSE k \in 1..Len(st.names): st.names[k] = common[j]]
        ixB == [j \in 1..Len(common) |-> CHOOSE k \in 1..Len(e.other.names): e.other.names[k] = common[j]]
        fa == IF e.app THEN 1 ELSE e.sw[1] * Norm(b)
        fb == IF e.app THEN 1 ELSE e.sw[2] * Norm(a)
        RowA(r) == [w |-> r.w * fa, l |-> r.l, x |-> [j \in 1..Len(common) |-> r.x[ixA[j]]]]
        RowB(r) == [w |-> r.w * fb, l |-> r.l, x |-> [j \in 1..Len(common) |-> r.x[ixB[j]]]]
        all == MapSeq(RowA, a) \o MapSeq(RowB, b)
        keep == SelectIdx(all, LAMBDA k: all[k].w > 0)
        o == e.obs.merged
    IN /\ Has(e.obs, "merged")
       /\ e.obs.mnames = common
       /\ Len(o) = Len(keep)
       /\ \A k \in 1..Len(o): o[k].x = keep[k].x /\ (st.hasL => o[k].l = keep[k].l)
       /\ PropEq(keep, o)
Judged(st, e) ==
    CASE e.op = "thinix" -> ThinIxOK(st, e)
      [] e.op = "thinfile" -> ThinFileOK(st, e)
      [] e.op = "pick" -> PickOK(st, e)
      [] e.op = "merge" -> MergeOK(st, e)
      [] OTHER -> TRUE
ErrOK(st, e) == IF CanDo(st, e) THEN e.obs.err = "" ELSE e.obs.err # ""
Next1(S, e) == UNION {{t \in Succ(s, e) : ErrOK(s, e) /\ Match(t, e.obs) /\ Judged(s, e)} : s \in S}
All1(S, e) == UNION {Succ(s, e) : s \in S}
\* creating: setting samples drops zero weight rows per set (per chain when given separately)
NewStC(e) ==
    LET s == [mode |-> e.mode, chains |-> e.chains, names |-> e.names, hasL |-> e.hasL, wden |-> e.wden,
              prop |-> FALSE, minw |-> e.minw]
        dz(c) == IF e.minw /\ (\E k \in 1..Len(c): c[k].w > 0) THEN SelectIdx(c, LAMBDA k: c[k].w > 0) ELSE c
        s1 == [s EXCEPT !.chains = MapSeq(dz, @)]
    IN IF e.fixdel THEN DeleteFixed(s1) ELSE s1
Init == i = 1 /\ sts = {}
Step ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "new"
       THEN LET n == NewStC(e) IN
            IF e.obs.err = "" /\ Match(n, e.obs) THEN sts' = {n}
            ELSE sts' = {} /\ PrintT(<<"MISMATCH", i, {n}>>)
       ELSE IF sts = {} THEN sts' = {}          \* rest of a scenario that already failed
       ELSE LET nx == Next1(sts, e) IN
            IF nx # {} THEN sts' = nx
            ELSE /\ sts' = {}
                 /\ PrintT(<<"MISMATCH", i, All1(sts, e)>>)
Spec == Init /\ [][Step]_<<i, sts>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
