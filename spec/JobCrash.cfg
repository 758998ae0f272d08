SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS OldOrNew Committed EmitBehaviours
CHECK_DEADLOCK FALSE
