------------------------------- MODULE Bounds -------------------------------
(* Hard bounds of parameters. A value is a text (the number as printed), "N" *)
(* is no bound. A set of bounds is [b, order]: name -> <<lower, upper>>, and  *)
(* the names in the order they first appeared. Samples add to that their own  *)
(* parameters (cols) and the limits their settings ask for.                   *)
EXTENDS VBase, Sequences, FiniteSets, TLC
None == <<"N", "N">>
Empty == [b |-> [n \in {} |-> None], order |-> <<>>, kind |-> "plain", cols |-> <<>>, lim |-> <<>>, all |-> None]
BoundOf(o, n) == IF n \in DOMAIN o.b THEN o.b[n] ELSE None
Merge(old, new) == <<IF new[1] = "N" THEN old[1] ELSE new[1], IF new[2] = "N" THEN old[2] ELSE new[2]>>
InSeq(x, s) == \E k \in 1..Len(s): s[k] = x
\* an end that is given replaces the previous one
Set1(o, n, r) == [o EXCEPT !.b = [m \in DOMAIN o.b \cup {n} |-> IF m = n THEN Merge(BoundOf(o, n), r) ELSE o.b[m]],
                           !.order = IF InSeq(n, @) THEN @ ELSE Append(@, n)]
\* l: sequence of [n, r]
SetAll(o, l) == FoldLeft(LAMBDA a, x: Set1(a, x.n, x.r), o, l)
Fixed(o) == {n \in DOMAIN o.b: o.b[n][1] = o.b[n][2] /\ o.b[n][1] # "N"}
\* lines of a file: those of three words give bounds
FromLines(ls) == SetAll(Empty, MapSeq(LAMBDA w: [n |-> w[1], r |-> <<w[2], w[3]>>], SelectSeq(ls, LAMBDA w: Len(w) = 3)))
\* what a saved file holds
ToLines(o) == MapSeq(LAMBDA n: <<n, o.b[n][1], o.b[n][2]>>, o.order)
\* the limits of the settings override those of exactly their parameter, "all" those of all parameters of the samples
LimOf(o, n) == IF o.all # None THEN o.all ELSE LET k == SelectSeq(o.lim, LAMBDA x: x.n = n) IN IF k = <<>> THEN None ELSE k[Len(k)].r
ApplyLim(o) == IF o.kind # "mc" THEN o
    ELSE FoldLeft(LAMBDA a, n: IF LimOf(o, n) = None /\ ~(o.all # None \/ \E k \in 1..Len(o.lim): o.lim[k].n = n) THEN a ELSE Set1(a, n, LimOf(o, n)), o, o.cols)
MkSamples(base, cols, fixed, lim, all) ==
    LET o == [base EXCEPT !.kind = "mc", !.cols = cols, !.lim = lim, !.all = all]
        f == FoldLeft(LAMBDA a, x: Set1(a, x.n, <<x.v, x.v>>), o, fixed)
    IN ApplyLim(f)
=============================================================================
