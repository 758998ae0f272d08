------------------------------ MODULE MCCovmat ------------------------------
(* Merging and rescaling small matrices with all overlaps of their names.     *)
EXTENDS Covmat, Json
CONSTANTS Depth, Emit
VARIABLES objs, hist, before, start
vars == <<objs, hist, before, start>>
\* entries that tell which matrix and which pair they come from
Sd == [a |-> 1, b |-> 2, c |-> 3]
Num == [a |-> 1, b |-> 2, c |-> 3]
Mk(ns, t) == Build(ns, LAMBDA x, y: IF x = y THEN 8 * Sd[x] * Sd[x] * t * t ELSE (Num[x] + Num[y] - 2) * t * t * Sd[x] * Sd[y])
Lists == UNION {SetToSeqs(S) : S \in {T \in SUBSET {"a", "b", "c"}: T # {}}}
Init == /\ objs \in {<<Mk(p, 1), Mk(q, 2)>> : p \in Lists, q \in Lists} /\ hist = <<>> /\ before = objs /\ start = objs
Next == /\ Len(hist) < Depth /\ before' = objs /\ start' = start
        /\ \/ \E o \in 1..Len(objs), n \in {"a", "c"}, k \in {2, -1}: objs' = [objs EXCEPT ![o] = Scale(@, n, k)] /\ hist' = Append(hist, [op |-> "scale", o |-> o, n |-> n, k |-> k])
           \/ \E o, p \in 1..Len(objs): Len(objs) < 3 /\ objs' = Append(objs, MergeCov(objs[o], objs[p])) /\ hist' = Append(hist, [op |-> "merge", o |-> Len(objs) + 1, a |-> o, b |-> p])
           \/ \E o \in 1..Len(objs): objs' = objs /\ hist' = Append(hist, [op |-> "reload", o |-> o])
Spec == Init /\ [][Next]_vars
Sym == \A o \in 1..Len(objs): NoDup(objs[o].names) /\ \A i, j \in 1..Len(objs[o].names): objs[o].m[i][j] = objs[o].m[j][i]
\* merging with itself changes nothing; the first keeps precedence and order; scaling of other names changes nothing
MergeLaws == \A o, p \in 1..Len(objs): LET c == objs[o] d == objs[p] m == MergeCov(c, d) IN
    /\ MergeCov(c, c) = c
    /\ SubSeq(m.names, 1, Len(c.names)) = c.names /\ Range_(m.names) = Range_(c.names) \cup Range_(d.names)
    /\ \A a, b \in Range_(c.names): At(m, a, b) = At(c, a, b)
    /\ \A a, b \in Range_(d.names): ~(HasPar(c, a) /\ HasPar(c, b)) => At(m, a, b) = At(d, a, b)
    /\ \A a, b \in Range_(m.names): (~(HasPar(c, a) /\ HasPar(c, b)) /\ ~(HasPar(d, a) /\ HasPar(d, b))) => At(m, a, b) = 0
ScaleLaws == \A o \in 1..Len(objs): \A n \in {"a", "b", "c"}: Scale(Scale(objs[o], n, -1), n, -1) = objs[o]
    /\ \A a, b \in Range_(objs[o].names) \ {n}: At(Scale(objs[o], n, 2), a, b) = At(objs[o], a, b)
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([start |-> start, ops |-> hist]))
=============================================================================
