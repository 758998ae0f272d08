------------------------------- MODULE MCDens -------------------------------
(* All small grids.  Levels: for every fraction there is one, it is lower for *)
(* larger fractions, and it does not depend on the order of the dimensions.   *)
EXTENDS Dens, Json
CONSTANTS MaxV, Emit
VARIABLES dims, P
Shapes == {<<2>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}
Init == dims \in Shapes /\ P = <<>>
Next == Len(P) < Size(dims) /\ \E v \in 0..MaxV: P' = Append(P, v) /\ dims' = dims
Spec == Init /\ [][Next]_<<dims, P>>
Full == Len(P) = Size(dims) /\ \E k \in 1..Len(P): P[k] > 0
Cs == {16, 32, 48, 60}
Levels(c, half) == {l \in 0..(2 * MaxV): LevelOK(dims, P, half, c, 0, l)}
SomeLevel == Full => \A c \in Cs, half \in BOOLEAN: Levels(c, half) # {}
Monotone == Full => \A c, d \in Cs, half \in BOOLEAN: c < d => MinOf(Levels(d, half)) <= MinOf(Levels(c, half)) /\ MaxOf(Levels(d, half)) <= MaxOf(Levels(c, half))
\* for fractions that can be had exactly the level is between the values in and out
Sharp == Full => \A c \in Cs: LET m == Masses(dims, P, TRUE) IN \A v \in Range_(P):
            (64 * MassWhere(m, P, LAMBDA z: z < v) < Target(dims, P, TRUE, c, 0) /\ Target(dims, P, TRUE, c, 0) < 64 * MassWhere(m, P, LAMBDA z: z <= v))
                => Levels(c, TRUE) \subseteq {l \in 0..(2 * MaxV): l <= 2 * v /\ \A z \in Range_(P): z < v => l > 2 * z}
\* transposing changes nothing
Tr(k) == PosAt(dims, k, 2) * dims[1] + PosAt(dims, k, 1) + 1
Transposed == [k \in 1..Len(P) |-> P[CHOOSE j \in 1..Len(P): Tr(j) = k]]
SymmetricDims == (Full /\ Len(dims) = 2) => \A c \in Cs, half \in BOOLEAN, l \in 0..(2 * MaxV):
                    LevelOK(dims, P, half, c, 0, l) = LevelOK(<<dims[2], dims[1]>>, Transposed, half, c, 0, l)
EmitBehaviours == (Emit /\ Full) => PrintT("@@" \o ToJson([dims |-> dims, P |-> P]))
=============================================================================
