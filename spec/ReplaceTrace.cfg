SPECIFICATION Spec
INVARIANTS Conforms Terminates Untouched
CHECK_DEADLOCK FALSE
