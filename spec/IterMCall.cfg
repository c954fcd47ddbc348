SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 3
  Emit = TRUE
INVARIANTS Independent EqMeans EndMeans Shows
CHECK_DEADLOCK FALSE
