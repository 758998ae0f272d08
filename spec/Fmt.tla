-------------------------------- MODULE Fmt --------------------------------
(* Printed numbers.  A number is m * 10^e with integers m and e; a printed   *)
(* number is its sign character, its digits as an integer M, and the number  *)
(* dp of digits after the decimal point.                                      *)
EXTENDS VBase
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE NDig(_)
NDig(a) == IF a < 10 THEN 1 ELSE 1 + NDig(a \div 10)
Num(m, e) == [m |-> m, e |-> e]
\* the multiples k of 10^P nearest to the number (two if it is half way)
RoundAt(d, P) ==
    LET a == Abs(d.m)
        s == IF d.m < 0 THEN -1 ELSE 1
        n == P - d.e
    IN IF n <= 0 THEN (IF a = 0 THEN {0} ELSE IF NDig(a) - n > 9 THEN {} ELSE {d.m * 10^(-n)})    \* (more digits than are ever printed)
       ELSE IF n > 9 THEN {0}
       ELSE LET q == a \div 10^n
                r == a % 10^n
                h == 5 * 10^(n - 1)
            IN {s * k : k \in (IF r <= h THEN {q} ELSE {}) \cup (IF r >= h THEN {q + 1} ELSE {})}
\* how k * 10^P is printed
Shown(k, P) == [M |-> IF k = 0 THEN 0 ELSE IF P > 0 /\ NDig(Abs(k)) + P > 9 THEN -1 ELSE Abs(k) * 10^Max2(P, 0), dp |-> Max2(0, -P)]
SgnOf(k, plus) == IF k < 0 THEN "-" ELSE IF k > 0 /\ plus THEN "+" ELSE ""
\* the possible roundings to sf significant figures: pairs <<k, P>>
Sig(d, sf) ==
    LET P == d.e + NDig(Abs(d.m)) - sf
    IN {IF Abs(k) = 10^sf THEN <<(k \div 10), P + 1>> ELSE <<k, P>> : k \in RoundAt(d, P)}
Same(p, k, P, plus) == p.M = Shown(k, P).M /\ p.dp = Shown(k, P).dp /\ p.sgn = SgnOf(k, plus)
\* rounding with an uncertainty tol in the last digit of m
Near(d, tol) == {[d EXCEPT !.m = d.m + t] : t \in -tol..tol}
FigsOK(p, d, sf, plus, tol) ==
    IF d.m = 0 THEN p.M = 0 /\ p.sgn = ""
    ELSE \E x \in Near(d, tol): \E kp \in Sig(x, sf): Same(p, kp[1], kp[2], plus)
\* position of the last significant figure of an error
LastPos(p, d, sf, tol) == IF d.m = 0 THEN {-p.dp} ELSE {kp[2] : kp \in UNION {Sig(x, sf) : x \in Near(d, tol)}}
ValueAt(p, d, P, tol) == \E x \in Near(d, tol): \E k \in RoundAt(x, P): Same(p, k, P, FALSE)
\* a value is printed at least down to the last figure of its (upper) error, and never to more decimals than its errors
ValueOK(p, d, last, maxdp, tol) == \E P \in -maxdp..last: ValueAt(p, d, P, tol)
\* errors have the figures asked for; one is enough for an error of at least 2, more than a tenth of a value of 20 or more
AtLeast(d, a) == IF d.e >= 0 THEN d.m * 10^Min2(d.e, 2) >= a ELSE IF d.e < -8 THEN FALSE ELSE d.m >= a * 10^(-d.e)
Small(v, u) == v.m >= 0 /\ 9 * u.m >= v.m /\ AtLeast(v, 20) /\ AtLeast(u, 2)
Figs(esf, v, u) == {esf} \cup (IF Small(v, u) THEN {1} ELSE {})
Sh(d, x) == [d EXCEPT !.e = d.e - x]
\* value v with upper error u and lower error l (signed), printed as pv, pu, pl in units of 10^x
WithErr(pv, pu, pl, v, u, l, x, esf, plus, tol) ==
    \E sf \in Figs(esf, v, u):
        /\ FigsOK(pu, Sh(u, x), sf, plus, tol) /\ FigsOK(pl, Sh(l, x), sf, plus, tol)
        /\ \E last \in LastPos(pu, Sh(u, x), sf, tol): ValueOK(pv, Sh(v, x), last, Max2(pu.dp, pl.dp), tol)

(* A parameter q: integers mean, err, best in units of 10^e and limits        *)
(* [lo, hi, tag]; a cell c as read from the text.                             *)
Sym(up, lo) == 10 * Abs(Abs(up) - Abs(lo)) <= Abs(lo)
SymMaybe(up, lo, tol) == 10 * Abs(Abs(up) - Abs(lo)) <= Abs(lo) + 20 * tol
LimCell(c, q, limit, esf, tol) ==
    LET m == q.lims[limit]
        up == m.hi - q.mean
        lo == m.lo - q.mean
        N(a) == Num(a, q.e)
    IN CASE q.chi2 /\ limit = 1 -> c.k = "pm" /\ c.x = 0 /\ WithErr(c.n[1], c.n[2], c.n[2], N(q.mean), N(q.err), N(q.err), 0, esf, FALSE, tol)
         [] q.chi2 -> /\ c.k = "dof" /\ c.x = 0
                      /\ \E sf \in Figs(esf, N(q.mean), N(q.err)): \E kp \in UNION {Sig(z, sf) : z \in Near(N(q.err), tol)}:
                            ValueOK(c.n[1], N(q.mean), kp[2], Shown(kp[1], kp[2]).dp, tol)
                      /\ (tol = 0 => c.dof <= 10^9 \div 10^(-2 * q.e) /\ Abs(5 * q.err * q.err - c.dof * 10^(-2 * q.e)) * 2 <= 10^(-2 * q.e))
         [] ~q.chi2 /\ m.tag = "two" ->
                \/ /\ c.k = "pm" /\ limit = 1 /\ SymMaybe(up, lo, tol)
                   /\ WithErr(c.n[1], c.n[2], c.n[2], N(q.mean), N(q.err), N(q.err), c.x, esf, FALSE, tol)
                \/ /\ c.k = "asym" /\ (limit # 1 \/ ~Sym(up, lo) \/ tol > 0 \/ 10 * Abs(Abs(up) - Abs(lo)) = Abs(lo))
                   /\ WithErr(c.n[1], c.n[2], c.n[3], N(q.mean), N(up), N(lo), c.x, esf, TRUE, 2 * tol)
         [] ~q.chi2 /\ m.tag = ">" -> c.k = "upper" /\ FigsOK(c.n[1], Num(m.hi, q.e - c.x), 3, FALSE, tol)
         [] ~q.chi2 /\ m.tag = "<" -> c.k = "lower" /\ FigsOK(c.n[1], Num(m.lo, q.e - c.x), 3, FALSE, tol)
         [] OTHER -> c.k = "none"
BestCell(c, q, limit, esf) ==
    LET m == q.lims[limit]
        r == Num(m.hi - m.lo, q.e - 1)
        v == Num(q.best, q.e)
    IN /\ c.k = "num"
       /\ \E sf \in {esf, 1}: \E kp \in Sig(Sh(r, c.x), sf): ValueOK(c.n[1], Sh(v, c.x), kp[2], Shown(kp[1], kp[2]).dp, 0)
\* a shift s (in tenths) of d = mean - reference mean in units of sigma, with sigma^2 = s2
ShiftIs(s, d, s2) ==
    /\ (d > 0 => s >= 0) /\ (d < 0 => s <= 0) /\ Abs(s) <= 9999 /\ (2 * Abs(s) + 1) * (2 * Abs(s) + 1) <= 2000000000 \div s2     \* (no overflow)
    /\ LET p == Abs(s) IN (IF p = 0 THEN TRUE ELSE (2 * p - 1) * (2 * p - 1) * s2 <= 400 * d * d) /\ 400 * d * d <= (2 * p + 1) * (2 * p + 1) * s2
ShiftOK(c, q, ref, sh) ==
    LET names == {k \in 1..Len(ref): ref[k].name = q.name}
    IN IF sh = "none" \/ c.k = "none" \/ names = {} THEN c.s = <<>>
       ELSE LET z == ref[CHOOSE k \in names: TRUE]
                d == q.mean - z.mean
                sub == Abs(q.err * q.err - z.err * z.err)
                ind == q.err * q.err + z.err * z.err
            IN CASE sh = "plain" -> Len(c.s) = 1 /\ c.s[1].t = "" /\ ShiftIs(c.s[1].v, d, z.err * z.err)
                 [] sh = "subset" -> Len(c.s) = 1 /\ c.s[1].t = "_s" /\ ShiftIs(c.s[1].v, d, sub)
                 [] sh = "indep" -> Len(c.s) = 1 /\ c.s[1].t = "_i" /\ ShiftIs(c.s[1].v, d, ind)
                 [] OTHER -> Len(c.s) = 2 /\ c.s[1].t = "_s" /\ ShiftIs(c.s[1].v, d, sub) /\ c.s[2].t = "_i" /\ ShiftIs(c.s[2].v, d, ind)

(* The table: parameters fill columns of numrow rows each, in order.          *)
NumRow(n, ncol) == (n + ncol - 1) \div ncol
\* the parameter (its number, or 0) in row i of block column c
At(n, ncol, i, c) == LET k == (c - 1) * NumRow(n, ncol) + i IN IF k <= n THEN k ELSE 0
PerResult(r) == IF r.kind = "best" THEN 1 ELSE IF r.bf THEN 2 ELSE 1
Width(rs) == 1 + SumSeq([k \in 1..Len(rs) |-> PerResult(rs[k])])
HeadOf(rs, limit) == <<"Parameter">> \o Flat([k \in 1..Len(rs) |-> IF rs[k].kind = "best" THEN <<"Best fit">>
                        ELSE (IF rs[k].bf THEN <<"Best fit">> ELSE <<>>) \o <<rs[k].pct[limit]>>])
Find(r, name) == LET s == {k \in 1..Len(r.pars): r.pars[k].name = name} IN IF s = {} THEN 0 ELSE CHOOSE k \in s: TRUE
ResCells(cs, r, name, t) ==
    LET f == Find(r, name)
    IN IF f = 0 THEN \A k \in 1..Len(cs): cs[k].k = "blank"
       ELSE LET q == r.pars[f] IN
            IF r.kind = "best" THEN cs[1].k = "num" /\ cs[1].x = 0 /\ FigsOK(cs[1].n[1], Num(q.best, q.e), t.sf, FALSE, 0)
            ELSE /\ LimCell(cs[Len(cs)], q, t.limit, t.esf, 0) /\ ShiftOK(cs[Len(cs)], q, t.ref, t.sh)
                 /\ r.bf => BestCell(cs[1], q, t.limit, t.esf)
BlockOK(cs, p, t) ==
    /\ cs[1].k = "label" /\ cs[1].t = p.label /\ cs[1].bold = ~p.der
    /\ \A k \in 1..Len(t.results):
         LET a == 1 + SumSeq([j \in 1..(k - 1) |-> PerResult(t.results[j])])
         IN ResCells(SubSeq(cs, a + 1, a + PerResult(t.results[k])), t.results[k], p.name, t)
TableOK(t, o) ==
    LET n == Len(t.params)
        w == Width(t.results)
    IN /\ o.head = Flat([c \in 1..t.ncol |-> HeadOf(t.results, t.limit)])
       /\ o.titles = IF t.titles = <<>> THEN <<>> ELSE Flat([c \in 1..t.ncol |-> <<"">> \o t.titles])
       /\ Len(o.rows) = NumRow(n, t.ncol)
       /\ \A i \in 1..Len(o.rows):
            /\ Len(o.rows[i]) = w * t.ncol
            /\ \A c \in 1..t.ncol:
                 LET cs == SubSeq(o.rows[i], (c - 1) * w + 1, c * w)
                     p == At(n, t.ncol, i, c)
                 IN IF p = 0 THEN \A k \in 1..w: cs[k].k = "blank" ELSE BlockOK(cs, t.params[p], t)
\* the blocks that are not as they should be (for reports)
BadBlocks(t, o) == LET w == Width(t.results) IN
    {<<i, c>> \in (1..Len(o.rows)) \X (1..t.ncol): Len(o.rows[i]) = w * t.ncol /\ At(Len(t.params), t.ncol, i, c) # 0 /\
        ~BlockOK(SubSeq(o.rows[i], (c - 1) * w + 1, c * w), t.params[At(Len(t.params), t.ncol, i, c)], t)}
=============================================================================
