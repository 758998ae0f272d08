------------------------------- MODULE Covmat -------------------------------
(* Covariance matrices of named parameters. A matrix is [names, m]: m[i][j]   *)
(* is 8 times the covariance of names[i] and names[j] (integers).             *)
EXTENDS VBase
At(c, a, b) == c.m[IndexIn(c.names, a)][IndexIn(c.names, b)]
HasPar(c, n) == IndexIn(c.names, n) > 0
Build(ns, Op(_, _)) == [names |-> ns, m |-> [i \in 1..Len(ns) |-> [j \in 1..Len(ns) |-> Op(ns[i], ns[j])]]]
\* a parameter multiplied by k: its covariances by k, its variance by k^2; other parameters as they were
Scale(c, n, k) == IF ~HasPar(c, n) THEN c
    ELSE Build(c.names, LAMBDA a, b: At(c, a, b) * (IF a = n THEN k ELSE 1) * (IF b = n THEN k ELSE 1))
\* entries of the first where it has both, else of the second where it has both, else none
MergeNames(c, d) == c.names \o SelectSeq(d.names, LAMBDA n: ~HasPar(c, n))
MergeCov(c, d) == Build(MergeNames(c, d), LAMBDA a, b:
    IF HasPar(c, a) /\ HasPar(c, b) THEN At(c, a, b) ELSE IF HasPar(d, a) /\ HasPar(d, b) THEN At(d, a, b) ELSE 0)
\* the correlation (given in units of 1/1000, rounded), for matrices with variances that are squares
SqrtOf(n) == CHOOSE k \in 0..4000: k * k = n
Abs(x) == IF x < 0 THEN -x ELSE x
IsCorr(c, r) == LET s == [i \in 1..Len(c.names) |-> SqrtOf(c.m[i][i] \div 8)] IN
    /\ Len(r) = Len(c.names)
    /\ \A i, j \in 1..Len(c.names): Abs(8 * s[i] * s[j] * r[i][j] - 1000 * c.m[i][j]) <= 5 * s[i] * s[j]
\* norm^2 times the sample covariance of columns a, b of rows [w, x]
SampleCov(rows, a, b) ==
    LET W == SumSeq(MapSeq(LAMBDA r: r.w, rows))
        S(f(_)) == SumSeq(MapSeq(LAMBDA r: r.w * f(r), rows))
    IN W * S(LAMBDA r: r.x[a] * r.x[b]) - S(LAMBDA r: r.x[a]) * S(LAMBDA r: r.x[b])
SampleMat(rows, idx) == [i \in 1..Len(idx) |-> [j \in 1..Len(idx) |-> SampleCov(rows, idx[i], idx[j])]]
NonDerIdx(info) == SelectSeq([i \in 1..Len(info) |-> i], LAMBDA i: ~info[i].derived)
=============================================================================
