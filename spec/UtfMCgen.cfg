SPECIFICATION GenSpec
CONSTANTS
  Slots = {1, 2, 3, 4}
  Depth = 30
  Emit = TRUE
INVARIANTS Gives Starts EqRight Emits
CHECK_DEADLOCK FALSE
