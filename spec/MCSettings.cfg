SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS RoundTrip Stable EmitBehaviours
CHECK_DEADLOCK FALSE
