-------------------------------- MODULE Dens --------------------------------
(* Densities on grids.  A grid has sizes dims (slowest first) and integer     *)
(* values P, listed with the last dimension fastest.  Cells on an edge count  *)
(* half for every edge they are on (masses are in units of 1/2^dimensions).   *)
EXTENDS VBase
Dim(dims) == Len(dims)
Size(dims) == FoldLeft(LAMBDA a, b: a * b, 1, dims)
\* position of cell k (from 1) along dimension d (from 0)
RECURSIVE Stride(_, _)
Stride(dims, d) == IF d = Len(dims) THEN 1 ELSE dims[d + 1] * Stride(dims, d + 1)
PosAt(dims, k, d) == ((k - 1) \div Stride(dims, d)) % dims[d]
Weight(dims, k, half) == FoldLeft(LAMBDA a, d: a * (IF half /\ PosAt(dims, k, d) \in {0, dims[d] - 1} THEN 1 ELSE 2), 1, [d \in 1..Len(dims) |-> d])
Masses(dims, P, half) == [k \in 1..Len(P) |-> P[k] * Weight(dims, k, half)]
MassWhere(m, P, Test(_)) == SumSeq([k \in 1..Len(P) |-> IF Test(P[k]) THEN m[k] ELSE 0])
\* 64 times the mass outside the contour with c/64 of the probability; miss: mass that is not on the grid
Target(dims, P, half, c, miss) == (64 - c) * SumSeq(Masses(dims, P, half)) - 64 * miss
\* lev2: twice the level, rounded up to an odd number if it is not a value on the grid
LevelOK(dims, P, half, c, miss, lev2) ==
    LET m == Masses(dims, P, half)
        t == Target(dims, P, half, c, miss)
        up == {P[k] : k \in {j \in 1..Len(P): 2 * P[j] >= lev2}}
    IN /\ up # {}
       /\ 64 * MassWhere(m, P, LAMBDA v: 2 * v < lev2) <= t
       /\ t <= 64 * MassWhere(m, P, LAMBDA v: v <= MinOf(up))
\* there need not be a level if the contour includes all but part of the emptiest cells
MayFail(dims, P, half, c, miss) ==
    LET m == Masses(dims, P, half)
        lo == MinOf(Range_(P))
    IN Target(dims, P, half, c, miss) <= 64 * MaxOf({m[k] : k \in {j \in 1..Len(P): P[j] = lo}})
MustFail(dims, P, half, c, miss) == Target(dims, P, half, c, miss) <= 0
\* the whole integral, in the same units
Integral(dims, P) == SumSeq(Masses(dims, P, TRUE))
=============================================================================
