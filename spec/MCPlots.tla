------------------------------- MODULE MCPlots -------------------------------
(* All small requests, and what their panels must be like.                    *)
EXTENDS Plots, Json
CONSTANTS MaxP, MaxS, Emit
VARIABLES q, nc
Names == << <<"p0", "p1", "p2", "p3">>, <<"p2", "p0", "p3", "p1">>, <<"p1", "p0", "p2">>, <<"p3", "p1", "p0", "p2">>, <<"p0", "q3", "p1">> >>
Ps == {"p0", "p1", "p2", "p3"}
Distinct(S, n) == {s \in [1..n -> S] : \A i, j \in 1..n: i < j => s[i] # s[j]}
Seqs(S, lo, hi) == UNION {Distinct(S, n) : n \in lo..hi}
\* the first set has all the parameters
SetLists == {s \in Seqs(0..4, 1, MaxS) : s[1] \in {0, 1, 3}}
Base == [kind |-> "", sets |-> <<0>>, upper |-> <<>>, px |-> <<>>, py |-> <<>>, pairs |-> <<>>, nx |-> 0, ren |-> <<>>, cols |-> <<>>,
         ls |-> <<>>, labels |-> <<>>, order |-> <<>>, mx |-> <<>>, my |-> <<>>, lims |-> <<>>, title |-> FALSE]
Pairs == {<<a, b>> : a \in Ps, b \in Ps} \ {<<a, a>> : a \in Ps}
Init == nc = 0 /\ q \in {[Base EXCEPT !.sets = s] : s \in SetLists}
Next ==
    /\ nc = 0 /\ nc' \in 1..3
    /\ \/ \E p \in Seqs(Ps, 1, MaxP): q' = [q EXCEPT !.kind = "1d", !.px = p, !.nx = nc'] \/ q' = [q EXCEPT !.kind = "1d", !.px = p, !.nx = nc', !.ren = << <<"p3", "q3">> >>]
       \/ \E p \in Seqs(Pairs, 1, 2): q' = [q EXCEPT !.kind = "2d", !.pairs = p, !.nx = nc']
       \/ /\ nc' = 1
          /\ \/ \E p \in Seqs(Ps, 2, MaxP): q' = [q EXCEPT !.kind = "tri", !.px = p]
             \/ \E p \in Seqs(Ps, 2, 2), u \in {<<1>>, <<3, 1>>}: q' = [q EXCEPT !.kind = "tri", !.px = p, !.upper = u]
             \/ \E p \in Seqs(Ps, 1, 2), r \in Seqs(Ps, 1, 2):
                  Range_(p) \cap Range_(r) = {} /\ q' = [q EXCEPT !.kind = "rect", !.px = p, !.py = r]
Spec == Init /\ [][Next]_<<q, nc>>
Done == nc > 0
P == Panels(Names, q, nc)
OnePerPlace == Done => \A i, j \in 1..Len(P): i # j => <<P[i].r, P[i].c>> # <<P[j].r, P[j].c>>
\* every pair of parameters of a triangle once below the diagonal, and once above it if wanted
TriComplete == (Done /\ q.kind = "tri") => \A a, b \in Range_(q.px):
    /\ Cardinality({k \in 1..Len(P): P[k].y = "" /\ P[k].x = a}) = 1
    /\ a # b => Cardinality({k \in 1..Len(P): {P[k].x, P[k].y} = {a, b}}) = (IF q.upper = <<>> THEN 1 ELSE 2)
RectComplete == (Done /\ q.kind = "rect") => \A a \in Range_(q.px), b \in Range_(q.py): \E k \in 1..Len(P): P[k].x = a /\ P[k].y = b
\* one column one x parameter, one row one y parameter
Aligned == (Done /\ q.kind \in {"tri", "rect"}) => \A i, j \in 1..Len(P):
    /\ P[i].c = P[j].c => P[i].x = P[j].x
    /\ (P[i].r = P[j].r /\ P[i].y # "" /\ P[j].y # "") => P[i].y = P[j].y
\* the first set is in every panel it was asked for in; nobody is drawn who was not asked for
Asked == Done => \A k \in 1..Len(P): /\ Len(P[k].draws) > 0
                                     /\ \A m \in 1..Len(P[k].draws): P[k].draws[m].s \in Range_(q.sets) \cup Range_(q.upper)
LegendOfDrawn == Done => \A m \in 1..Len(InLegend(Names, q, nc)): InLegend(Names, q, nc)[m] \in Range_(AllSets(q))
EmitBehaviours == (Emit /\ Done) => PrintT("@@" \o ToJson(q))
=============================================================================
