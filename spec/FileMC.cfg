SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Held Emits
CHECK_DEADLOCK FALSE
