SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS RoundTrip MarkedWhole CutOnce OnceOnly FilesKept EmitBehaviours
CHECK_DEADLOCK FALSE
