SPECIFICATION Spec
CONSTANTS
  MaxP = 2
  MaxS = 2
  Emit = FALSE
INVARIANTS OnePerPlace TriComplete RectComplete Aligned Asked LegendOfDrawn EmitBehaviours
CHECK_DEADLOCK FALSE
