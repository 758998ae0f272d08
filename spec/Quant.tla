------------------------------- MODULE Quant -------------------------------
(* Confidence limits of weighted samples, exactly: the samples are sequences *)
(* of values with integer weights and -log(likelihood)s, a fraction is a     *)
(* pair <<numerator, denominator>>.                                           *)
EXTENDS VBase
RECURSIVE SumOver(_, _)
SumOver(w, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S: TRUE IN w[i] + SumOver(w, S \ {i})
Total(w) == SumSeq(w)
CumAt(x, w, v) == SumSeq([i \in 1..Len(x) |-> IF x[i] <= v THEN w[i] ELSE 0])
\* the smallest sample value at which the cumulative weight reaches the fraction
Quantile(x, w, f) ==
    LET tot == Total(w)
        ok == {v \in Range_(x): f[2] * CumAt(x, w, v) >= f[1] * tot}
    IN MinOf(ok)
Compl(f) == <<f[2] - f[1], f[2]>>
Limit(x, w, f, upper) == Quantile(x, w, IF upper THEN Compl(f) ELSE f)
\* both ends of the interval holding the fraction f between equal tails: tails (1-f)/2 and 1-(1-f)/2
TwoTail(x, w, f) == <<Quantile(x, w, <<f[2] - f[1], 2 * f[2]>>), Quantile(x, w, <<f[2] + f[1], 2 * f[2]>>)>>
\* the part of the samples asked for (positions count from 0, negative ones from the end; 9999 is the end)
Norm(a, n) == IF a < 0 THEN Max2(0, n + a) ELSE Min2(a, n)
SliceOf(s, a, b) == SubSeq(s, Norm(a, Len(s)) + 1, Norm(b, Len(s)))

(* The N-dimensional region: the most likely samples whose cumulative weight *)
(* stays below the fraction, at least one.  Equally likely samples may be     *)
(* taken in any order, so this is the set of the possible regions.            *)
Regions(L, w, f) ==
    LET tot == Total(w)
        Less(S) == f[2] * SumOver(w, S) < f[1] * tot
    IN UNION {LET base == {i \in 1..Len(L): L[i] < t}
                  tie == {i \in 1..Len(L): L[i] = t}
              IN {IF base \cup p[1] = {} THEN {p[2]} ELSE base \cup p[1] :
                    p \in {q \in (SUBSET tie) \X tie: q[2] \notin q[1] /\ Less(base \cup q[1]) /\ ~Less(base \cup q[1] \cup {q[2]})}}
             : t \in {L[i] : i \in 1..Len(L)}}
Bot(x, S) == MinOf({x[i] : i \in S})
Top(x, S) == MaxOf({x[i] : i \in S})
BestFit(L) == {i \in 1..Len(L): \A k \in 1..Len(L): L[i] <= L[k]}
Keep(s, where) == SelectIdx(s, LAMBDA i: where[i] = 1)
=============================================================================
