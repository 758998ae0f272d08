SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS NoDupIds ActiveIndexed Reachable NamesLive CancelOnlyNamed EmitBehaviours
CHECK_DEADLOCK FALSE
