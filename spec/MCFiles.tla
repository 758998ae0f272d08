------------------------------ MODULE MCFiles ------------------------------
(* All small file and root names made of the pieces that matter for the      *)
(* naming rule; a state is a pair of roots and a file.                       *)
EXTENDS Files, Json
CONSTANTS Pieces, NameLen, RootLen, Emit
VARIABLES st
Words(n) == UNION {{Join(w, "") : w \in SeqProd([k \in 1..m |-> Pieces])} : m \in 1..n}
Names == {w \o x : w \in Words(NameLen), x \in {".txt", ".tx", "_txt"}}
Roots == Words(RootLen)
Emitted == Emit => PrintT("@@" \o ToJson([names |-> SetToSeq(Names), roots |-> SetToSeq(Roots)]))
Init == /\ st = <<>> /\ Emitted
Next == /\ st = <<>>
        /\ \E r \in Roots, f \in Names, sep \in {"_", "."}: st' = <<r, f, sep>> /\ ChainNum(f, r, sep, ".txt") >= 0
Spec == Init /\ [][Next]_st
\* a file has another root only by the ambiguity inherent in the rule: root_1.txt is also the single file of root_1
Unambiguous == st # <<>> => \A r2 \in Roots \ {st[1]}: ChainNum(st[2], r2, st[3], ".txt") >= 0 =>
    \/ \E k \in 0..Len(r2): r2 = st[1] \o st[3] \o Mid(r2, Len(st[1] \o st[3]) + 1, Len(r2)) /\ IsDigits(Mid(r2, Len(st[1] \o st[3]) + 1, Len(r2)))
    \/ st[1] = r2 \o st[3] \o Mid(st[1], Len(r2 \o st[3]) + 1, Len(st[1])) /\ IsDigits(Mid(st[1], Len(r2 \o st[3]) + 1, Len(st[1])))
=============================================================================
