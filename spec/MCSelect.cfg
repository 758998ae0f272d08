SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = TRUE
INVARIANTS NotTwice HasParent NotFinished NoneMissed OnlyRestrict EmitBehaviours
CHECK_DEADLOCK FALSE
