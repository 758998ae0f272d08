SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  NGroups = 1
INVARIANTS Holds EmitBehaviours
CHECK_DEADLOCK FALSE
