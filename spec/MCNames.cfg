SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS ExactFirst AliasFound NothingLost GlobAll EmitBehaviours
CHECK_DEADLOCK FALSE
