SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
INVARIANTS UsedAreThere NoPlotFiles NoFixed EmitBehaviours
CHECK_DEADLOCK FALSE
