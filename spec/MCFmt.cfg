SPECIFICATION Spec
CONSTANTS
  MaxM = 1100
  MaxN = 12
  Emit = TRUE
INVARIANTS RoundOK SigOK Possible Once EmitBehaviours
CHECK_DEADLOCK FALSE
