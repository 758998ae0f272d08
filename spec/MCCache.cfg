SPECIFICATION Spec
CONSTANTS
  MaxChain = 3
  Settings = {"A", "B"}
  Depth = 4
  Emit = TRUE
INVARIANTS CacheHonest EmitBehaviours
PROPERTIES Transparent
CHECK_DEADLOCK FALSE
