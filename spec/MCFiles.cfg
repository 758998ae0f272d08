SPECIFICATION Spec
CONSTANTS
  Pieces = {"a", "_", "1", "02", "."}
  NameLen = 3
  RootLen = 2
  Emit = TRUE
INVARIANTS Unambiguous
CHECK_DEADLOCK FALSE
