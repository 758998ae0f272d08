SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxW = 4
  MaxK = 6
  Emit = TRUE
INVARIANTS HitsAreUnits Conserves NoZeroKept UnitFactor EmitCase
CHECK_DEADLOCK FALSE
