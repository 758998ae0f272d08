------------------------------ MODULE MCQuant ------------------------------
(* Every small weighted sample set, and every fraction of it.                *)
EXTENDS Quant, Json
CONSTANTS Rows, Emit, MaxW
VARIABLES x, w, L
vars == <<x, w, L>>
Fr == {<<n, 8>> : n \in 1..7}
Init == x = <<>> /\ w = <<>> /\ L = <<>>
Next == /\ Len(x) < Rows
        /\ \E a \in 1..3, b \in 0..MaxW, c \in 1..3: x' = Append(x, a) /\ w' = Append(w, b) /\ L' = Append(L, c)
Spec == Init /\ [][Next]_vars
Some == Total(w) > 0
n == Len(x)
\* always a sample, one that carries weight
IsSample == Some => \A f \in Fr: \A u \in BOOLEAN: \E i \in 1..n: w[i] > 0 /\ x[i] = Limit(x, w, f, u)
Monotone == Some => \A f, g \in Fr: f[1] <= g[1] => /\ Limit(x, w, f, FALSE) <= Limit(x, w, g, FALSE)
                                             /\ Limit(x, w, f, TRUE) >= Limit(x, w, g, TRUE)
\* no more than the fraction lies strictly below, at least the fraction at or below
Tails == Some => \A f \in Fr: LET v == Limit(x, w, f, FALSE) IN
            /\ f[2] * CumAt(x, w, v) >= f[1] * Total(w)
            /\ f[2] * CumAt(x, w, v - 1) < f[1] * Total(w)
Reorder == Some => LET rx == Reverse(x)
               rw == Reverse(w) IN \A f \in Fr: Quantile(rx, rw, f) = Quantile(x, w, f)
Rescale == Some => \A f \in Fr: Quantile(x, [i \in 1..n |-> 3 * w[i]], f) = Quantile(x, w, f)
\* splitting a sample into two with the weight shared between them changes nothing
Split == Some => \A f \in Fr: Quantile(Append(x, x[1]), Append([w EXCEPT ![1] = w[1] \div 2], w[1] - w[1] \div 2), f) = Quantile(x, w, f)
Ordered == Some => \A f \in Fr: TwoTail(x, w, f)[1] <= TwoTail(x, w, f)[2]
Nested == Some => \A f, g \in Fr: f[1] <= g[1] => /\ TwoTail(x, w, g)[1] <= TwoTail(x, w, f)[1] /\ TwoTail(x, w, f)[2] <= TwoTail(x, w, g)[2]
RegionsOK == Some => \A f \in Fr: LET R == Regions(L, w, f) IN
    /\ R # {}
    /\ \A S \in R: /\ S # {}
                   /\ \A i \in S: \A k \in 1..n: L[k] < L[i] => k \in S      \* nothing more likely is left out
                   /\ S \cap BestFit(L) # {}
                   /\ (f[2] * SumOver(w, S) < f[1] * Total(w) \/ Cardinality(S) = 1)
    /\ (NoDup(L) => Cardinality(R) = 1)
NDNested == (Some /\ NoDup(L)) => \A f, g \in Fr: f[1] <= g[1] => (CHOOSE S \in Regions(L, w, f): TRUE) \subseteq (CHOOSE S \in Regions(L, w, g): TRUE)
EmitBehaviours == (Emit /\ n = Rows /\ Some) => PrintT("@@" \o ToJson([x |-> x, w |-> w, L |-> L]))
=============================================================================
