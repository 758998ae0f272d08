SPECIFICATION Spec
CONSTANTS
  Rows = 3
  MaxW = 2
  Emit = TRUE
INVARIANTS IsSample Monotone Tails Reorder Rescale Split Ordered Nested RegionsOK NDNested EmitBehaviours
CHECK_DEADLOCK FALSE
