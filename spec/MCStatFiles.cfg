SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS Stable Once Kept BestKept EmitBehaviours
CHECK_DEADLOCK FALSE
