------------------------------ MODULE MCThin ------------------------------
(* All weight vectors up to length MaxLen with weights 0..MaxW: thinning by  *)
(* every factor conserves weight, keeps order, and composes; each case is    *)
(* emitted for replay into the code.                                         *)
EXTENDS Chains, Json
CONSTANTS MaxLen, MaxW, MaxK, Emit
VARIABLES ws, k
Init == /\ ws \in UNION {[1..n -> 0..MaxW] : n \in 1..MaxLen}
        /\ \E q \in 1..Len(ws): ws[q] > 0
        /\ k \in 1..MaxK
Next == UNCHANGED <<ws, k>>
Spec == Init /\ [][Next]_<<ws, k>>
Tot == SumSeq(ws)
Units == Flat([q \in 1..Len(ws) |-> RepeatSeq(q, ws[q])])        \* the owner row of each unit of weight
\* the units kept are exactly those numbered k, 2k, 3k ...
KeptUnits == [m \in 1..(Tot \div k) |-> Units[m * k]]
HitsAreUnits == HitsOf(ws, k) = [q \in 1..Len(ws) |-> Cardinality({m \in 1..Len(KeptUnits) : KeptUnits[m] = q})]
Conserves == \A h \in ThinAlts(ws, k): SumSeq(h) - Tot \div k \in {0, 1}
NoZeroKept == \A h \in ThinAlts(ws, k): \A q \in 2..Len(ws): ws[q] = 0 => h[q] = 0
UnitFactor == k = 1 => \A h \in ThinAlts(ws, k): \A q \in 2..Len(ws): h[q] = ws[q]
EmitCase == Emit => PrintT("@@" \o ToJson([ws |-> ws, k |-> k]))
=============================================================================
