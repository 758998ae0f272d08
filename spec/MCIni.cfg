SPECIFICATION Spec
CONSTANTS
  L1 = 2
  L2 = 2
  L3 = 2
  Emit = TRUE
INVARIANTS Agrees OwnWins EmitBehaviours
CHECK_DEADLOCK FALSE
