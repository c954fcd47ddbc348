SPECIFICATION GenSpec
CONSTANT Depth = 14
INVARIANTS Held Emits
CHECK_DEADLOCK FALSE
