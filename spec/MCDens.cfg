SPECIFICATION Spec
CONSTANTS
  MaxV = 2
  Emit = TRUE
INVARIANTS SomeLevel Monotone Sharp SymmetricDims EmitBehaviours
CHECK_DEADLOCK FALSE
