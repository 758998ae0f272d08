SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Ops = {"filter","filterix","delzeros","minweight","burnrows","burnfrac","thin","wthin","reweight","cool","addcol","delfixed","copy","makesingle"}
  Emit = FALSE
INVARIANTS RowIntegrity InOrder ChainIdentity LikeKept Composes ThinConserves EmitBehaviours
CHECK_DEADLOCK FALSE
