SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Depth = 9
  Emit = FALSE
INVARIANTS NotTwice HasParent NotFinished NoneMissed OnlyRestrict
CHECK_DEADLOCK FALSE
