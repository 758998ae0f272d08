SPECIFICATION Spec
CONSTANTS
  MaxChain = 3
  Settings = {}
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
