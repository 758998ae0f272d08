SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS RoundTrip OnlyNamed LastWins LimitsWin EmitBehaviours
CHECK_DEADLOCK FALSE
