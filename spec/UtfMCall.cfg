SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 3
  Emit = TRUE
INVARIANTS Gives Starts EqRight Emits
CHECK_DEADLOCK FALSE
