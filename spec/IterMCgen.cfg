SPECIFICATION GenSpec
CONSTANTS
  Slots = {1, 2, 3, 4}
  Depth = 24
  Emit = TRUE
INVARIANTS Independent EqMeans EndMeans Shows
CHECK_DEADLOCK FALSE
