------------------------------ MODULE MCNames ------------------------------
(* Histories of edits of a small list of parameters.                         *)
EXTENDS Names, Json
CONSTANTS Depth, Emit
VARIABLES ps, hist, before, start
P(n, d, r) == [name |-> n, label |-> n \o "_l", comment |-> "", derived |-> d, ren |-> r]
Init == /\ \E S \in SUBSET {P("a", FALSE, {}), P("b", FALSE, {"c"}), P("ab", TRUE, {}), P("c", TRUE, {"d"})}: ps \in SetToSeqs(S) /\ Len(ps) > 1
        /\ hist = <<>> /\ before = ps /\ start = ps
Tables == {<<[n |-> "a", l |-> <<"e">>]>>, <<[n |-> "e", l |-> <<"a", "f">>]>>, <<[n |-> "b", l |-> <<"ab">>], [n |-> "g", l |-> <<"c">>]>>}
Next == /\ Len(hist) < Depth /\ before' = ps /\ start' = start
        /\ \/ \E n \in {"c", "e"}: n \notin Range_(Names_(ps)) /\ ps' = Append(ps, P(n, TRUE, {})) /\ hist' = Append(hist, [op |-> "add", name |-> n])
           \/ \E I \in {{0}, {1}, {0, 2}}: Len(DelIdx(ps, I)) > 0 /\ ps' = DelIdx(ps, I) /\ hist' = Append(hist, [op |-> "del", idx |-> SetToSeq(I)])
           \/ \E K \in {<<"a", "c">>, <<"ab", "zz", "b">>}: ps' = Filter(ps, Range_(K)) /\ Len(ps') > 0 /\ hist' = Append(hist, [op |-> "filter", keep |-> K])
           \/ \E t \in Tables: LET all == [1..Len(ps) -> SUBSET {}] IN
                /\ ps' = [i \in 1..Len(ps) |-> IF \E j \in 1..(i - 1): j \in OwnIn(ps, Class(ps, t, ps[i].name)) THEN ps[i]
                                               ELSE [ps[i] EXCEPT !.ren = Class(ps, t, ps[i].name) \ {ps[i].name}]]
                /\ Updated(ps, t, ps') /\ hist' = Append(hist, [op |-> "renames", d |-> t])
           \/ ps' = AsFile(ps) /\ hist' = Append(hist, [op |-> "reload"])
Spec == Init /\ [][Next]_<<ps, hist, before, start>>
\* exact names always win; every alias leads to a parameter that has it; a parameter keeps its attributes through every edit
Probe == {"a", "b", "c", "ab", "d", "e", "f", "g"}
ExactFirst == \A i \in 1..Len(ps): Lookup(ps, <<>>, ps[i].name) = {i}
AliasFound == \A n \in Probe: \A i \in Lookup(ps, <<>>, n): ps[i].name = n \/ n \in ps[i].ren
NothingLost == \A i, j \in 1..Len(ps): \A k, m \in 1..Len(before): (ps[i].name = before[k].name /\ ps[j].name = before[m].name) =>
                   /\ (i < j <=> k < m) /\ ps[i].label = before[k].label /\ ps[i].derived = before[k].derived
GlobAll == Matches(ps, "*") = [i \in 1..Len(ps) |-> i] /\ \A i \in 1..Len(ps): i \in Range_(Matches(ps, "?")) <=> Len(ps[i].name) = 1
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([init |-> MapSeq(LAMBDA p: [p EXCEPT !.ren = SetToSeq(@)], start), ops |-> hist]))
=============================================================================
