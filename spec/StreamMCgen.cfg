SPECIFICATION GenSpec
CONSTANTS
  Slots = {1, 2, 3, 4}
  Depth = 40
  Emit = TRUE
INVARIANTS Reads EndsMatch MasterRight EqRight Emits
CHECK_DEADLOCK FALSE
