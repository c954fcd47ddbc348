SPECIFICATION Spec
INVARIANTS Inverses Shape Cut
CHECK_DEADLOCK FALSE
