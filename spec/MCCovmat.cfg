SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS Sym MergeLaws ScaleLaws EmitBehaviours
CHECK_DEADLOCK FALSE
