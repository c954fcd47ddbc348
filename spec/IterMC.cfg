SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 0
  Emit = FALSE
INVARIANTS Independent EqMeans EndMeans Shows
CONSTRAINT Small
CHECK_DEADLOCK FALSE
