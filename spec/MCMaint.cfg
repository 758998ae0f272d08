SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS OneOwner CleanSafe CleanTwice CopySafe NoClash Faithful EmitBehaviours
CHECK_DEADLOCK FALSE
