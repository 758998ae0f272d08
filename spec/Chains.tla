------------------------------- MODULE Chains -------------------------------
(***************************************************************************)
(* Weighted samples and sets of MCMC chains (getdist WeightedSamples,      *)
(* Chains, MCSamples): state and every operation that changes it.          *)
(*                                                                         *)
(* st is a record                                                          *)
(*   mode   "single"    one sample set, never made of separate chains      *)
(*          "separate"  several chains not (yet) combined                  *)
(*          "combined"  chains combined to one set, still separable        *)
(*   chains sequence of chains; a chain is a sequence of rows [w, l, x]:   *)
(*          weight, -log like (units of ln 2) and parameter values         *)
(*   names  sequence of parameter names                                    *)
(*   hasL   log-likelihoods present                                        *)
(*   wden   real weight = w / wden (wden > 1: fractional weights)          *)
(*   prop   weights only defined up to a common factor (after reweighting) *)
(*   minw   rows of zero weight are dropped when samples are (re)set       *)
(***************************************************************************)
EXTENDS VBase

Rows(st) == Flat(st.chains)
NRows(st) == SumSeq(MapSeq(Len, st.chains))
IsSeparate(st) == st.mode = "separate"
\* for the i-th row of the concatenation: (chain, position)
Offset(st, c) == SumSeq([k \in 1..(c-1) |-> Len(st.chains[k])])

------------------------------------------------------------ \* selections
\* keep rows of the concatenation for which Keep(i) holds, chain by chain
KeepRows(st, Keep(_)) ==
    [st EXCEPT !.chains = [c \in 1..Len(st.chains) |->
        SelectIdx(st.chains[c], LAMBDA i: Keep(Offset(st, c) + i))]]

\* setting samples drops zero weight rows if there is any positive weight
DropZeros(st) ==
    LET r == Rows(st) IN
    IF st.minw /\ (\E i \in 1..Len(r): r[i].w > 0) THEN KeepRows(st, LAMBDA i: r[i].w > 0) ELSE st

Filter(st, mask) == KeepRows(st, LAMBDA i: mask[i])
FilterIx(st, ix) == KeepRows(st, LAMBDA i: (i - 1) \in Range_(ix))      \* 0-based index list
DeleteZeros(st) == LET r == Rows(st) IN KeepRows(st, LAMBDA i: r[i].w > 0)
MinWeight(st, num, den) ==      \* drop rows with weight <= (num/den)*max if any is below
    LET r == Rows(st)
        mx == MaxOf({r[i].w : i \in 1..Len(r)})
    IN  IF Len(r) = 0 \/ \A i \in 1..Len(r): r[i].w * den >= mx * num THEN st
        ELSE KeepRows(st, LAMBDA i: r[i].w * den > mx * num)

\* burn-in: drop n leading rows of the set (or of each chain when separate)
BurnRows(st, n) ==
    IF IsSeparate(st) THEN [st EXCEPT !.chains = MapSeq(LAMBDA c: DropN(c, n), @)]
    ELSE KeepRows(st, LAMBDA i: i > n)
\* n is a correct rounding of the fraction num/den of len
RoundOK(n, len, num, den) == LET d == 2 * (n * den - len * num) IN d <= den /\ -d <= den
Rounds(len, num, den) == {n \in 0..len : RoundOK(n, len, num, den)}
BurnFrac(st, num, den) ==
    IF IsSeparate(st)
    THEN {[st EXCEPT !.chains = [c \in 1..Len(st.chains) |-> DropN(st.chains[c], f[c])]] :
            f \in SeqProd([c \in 1..Len(st.chains) |-> Rounds(Len(st.chains[c]), num, den)])}
    ELSE {BurnRows(st, n) : n \in Rounds(NRows(st), num, den)}

------------------------------------------------------------ \* thinning
\* number of multiples of k that fall in the i-th row's units of cumulative weight
CumW(ws) == [i \in 1..Len(ws) |-> SumSeq(SubSeq(ws, 1, i))]
HitsOf(ws, k) ==
    LET cum == FoldLeft(LAMBDA acc, w: Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + w), <<>>, ws)
    IN [i \in 1..Len(ws) |-> cum[i] \div k - (IF i = 1 THEN 0 ELSE cum[i-1]) \div k]
\* a thinned multiplicity vector h is right: all hits, and possibly one more of the first row
\* (if that row holds none of the units itself)
ThinOK(ws, k, h) ==
    LET hits == HitsOf(ws, k) IN
    /\ Len(h) = Len(ws)
    /\ \A i \in 2..Len(ws): h[i] = hits[i]
    /\ Len(ws) > 0 => h[1] = hits[1] \/ (hits[1] = 0 /\ h[1] = 1)
ThinIntegral(st) == \A c \in 1..Len(st.chains): \A i \in 1..Len(st.chains[c]): st.chains[c][i].w % st.wden = 0
WsOf(rows, wden) == MapSeq(LAMBDA r: r.w \div wden, rows)
ThinAlts(ws, k) ==            \* the acceptable multiplicity vectors
    LET hits == HitsOf(ws, k) IN
    {hits} \cup (IF Len(ws) > 0 /\ hits[1] = 0 THEN {[hits EXCEPT ![1] = 1]} ELSE {})
UnitRows(rows, h) == Flat([i \in 1..Len(rows) |-> RepeatSeq([rows[i] EXCEPT !.w = 1], h[i])])
CountRows(rows, h) == SelectIdx([i \in 1..Len(rows) |-> [rows[i] EXCEPT !.w = h[i]]], LAMBDA i: h[i] > 0)
\* thin: the whole (combined) set, unit weight rows.  h: multiplicity of each row
ThinBy(st, h) ==
    [st EXCEPT !.chains = [c \in 1..Len(st.chains) |->
        UnitRows(st.chains[c], SubSeq(h, Offset(st, c) + 1, Offset(st, c) + Len(st.chains[c])))],
        !.wden = 1]
Thin(st, k) == {ThinBy(st, h) : h \in ThinAlts(WsOf(Rows(st), st.wden), k)}
\* weighted_thin: chain by chain, integer weights
WThin(st, k) ==
    {[st EXCEPT !.chains = [c \in 1..Len(st.chains) |-> CountRows(st.chains[c], hs[c])], !.wden = 1] :
        hs \in SeqProd([c \in 1..Len(st.chains) |-> ThinAlts(WsOf(st.chains[c], st.wden), k)])}

------------------------------------------------------------ \* reweighting
MapRows(st, F(_, _)) ==       \* F(i, row), i index in the concatenation
    [st EXCEPT !.chains = [c \in 1..Len(st.chains) |->
        [i \in 1..Len(st.chains[c]) |-> F(Offset(st, c) + i, st.chains[c][i])]]]
\* add d[i]*ln2 to the i-th -loglike:  weight * 2^-d[i], common factor 2^max(d)
Reweight(st, d) ==
    LET top == MaxOf(Range_(d)) IN
    [MapRows(st, LAMBDA i, r: [r EXCEPT !.w = @ * Pow2(top - d[i]), !.l = @ + d[i]]) EXCEPT !.prop = TRUE]
\* cool by num/den: l -> l*num/den  (num*l divisible by den), weight * 2^(l - l*num/den)
Cool(st, num, den) ==
    LET r == Rows(st)
        nl(v) == (v * num) \div den
        dd == [i \in 1..Len(r) |-> nl(r[i].l) - r[i].l]
        top == MaxOf(Range_(dd))
    IN [MapRows(st, LAMBDA i, row: [row EXCEPT !.w = @ * Pow2(top - dd[i]), !.l = nl(@)]) EXCEPT !.prop = TRUE]

------------------------------------------------------------ \* columns
AddCol(st, name, vec) ==
    [MapRows(st, LAMBDA i, r: [r EXCEPT !.x = Append(@, vec[i])]) EXCEPT !.names = Append(@, name)]
FixedCols(st) ==
    LET r == Rows(st) IN
    {j \in 1..Len(st.names): \A i \in 1..Len(r): r[i].x[j] = r[1].x[j]}
DropCols(st, J) ==
    [MapRows(st, LAMBDA i, r: [r EXCEPT !.x = SelectIdx(@, LAMBDA j: j \notin J)])
        EXCEPT !.names = SelectIdx(@, LAMBDA j: j \notin J)]
DeleteFixed(st) == DropCols(st, FixedCols(st))
MakeSingle(st) == [st EXCEPT !.mode = "combined"]

------------------------------------------------------------ \* exact statistics
Norm(rows) == SumSeq(MapSeq(LAMBDA r: r.w, rows))
SumX(rows, j) == SumSeq(MapSeq(LAMBDA r: r.w * r.x[j], rows))
SumXX(rows, i, j) == SumSeq(MapSeq(LAMBDA r: r.w * r.x[i] * r.x[j], rows))
\* covariance * Norm^2
CovN2(rows, i, j) == Norm(rows) * SumXX(rows, i, j) - SumX(rows, i) * SumX(rows, j)
\* Gelman-Rubin var(mean)/mean(var) of column 1 for m chains of equal norm: <<num, den>>
GRequal(chs) ==
    LET m == Len(chs)
        S == SumSeq(MapSeq(LAMBDA c: SumX(c, 1), chs))
        num == SumSeq(MapSeq(LAMBDA c: (m * SumX(c, 1) - S) * (m * SumX(c, 1) - S), chs))
        den == m * (m - 1) * SumSeq(MapSeq(LAMBDA c: CovN2(c, 1, 1), chs))
    IN <<num, den>>

------------------------------------------------------------ \* operations as labelled steps
\* e is an event record [op |-> ..., args]; Enabled says when the call must succeed;
\* otherwise it must fail and change nothing.
CanDo(st, e) ==
    CASE e.op = "filter" -> ~IsSeparate(st) /\ Len(e.mask) = NRows(st)
      [] e.op = "filterix" -> ~IsSeparate(st)
      [] e.op = "thin" -> ThinIntegral(st) /\ e.kden = 1
      [] e.op = "wthin" -> ThinIntegral(st) /\ e.kden = 1
      [] e.op = "thinix" -> ThinIntegral(st) /\ e.kden = 1
      [] e.op = "addcol" -> e.name \notin Range_(st.names) /\ Len(e.vec) = NRows(st)
      [] OTHER -> TRUE

Do(st, e) ==
    CASE e.op = "filter" -> {Filter(st, e.mask)}
      [] e.op = "filterix" -> {FilterIx(st, e.ix)}
      [] e.op = "delzeros" -> {DeleteZeros(st)}
      [] e.op = "minweight" -> {MinWeight(st, e.num, e.den)}
      [] e.op = "burnrows" -> {BurnRows(st, e.n)}
      [] e.op = "burnfrac" -> BurnFrac(st, e.num, e.den)
      [] e.op = "thin" -> Thin(st, e.k)
      [] e.op = "wthin" -> WThin(st, e.k)
      [] e.op = "reweight" -> {Reweight(st, e.d)}
      [] e.op = "cool" -> {Cool(st, e.num, e.den)}
      [] e.op = "addcol" -> {AddCol(st, e.name, e.vec)}
      [] e.op = "delfixed" -> {DeleteFixed(st)}
      [] e.op = "makesingle" -> {MakeSingle(st)}
      [] OTHER -> {st}                 \* copy, query, thinix, thinfile, pick, merge

\* all allowed next states of a call (a refused call changes nothing)
Succ(st, e) == IF CanDo(st, e) THEN Do(st, e) ELSE {st}
=============================================================================
