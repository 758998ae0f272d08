SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = FALSE
INVARIANTS FromFirst OneOfEach ForeignSettings EmitBehaviours
CHECK_DEADLOCK FALSE
