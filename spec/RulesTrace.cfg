SPECIFICATION Spec
INVARIANTS Conforms Shape Closed
CHECK_DEADLOCK FALSE
