SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Depth = 4
  Emit = TRUE
INVARIANTS Reads EndsMatch MasterRight EqRight Emits
CHECK_DEADLOCK FALSE
