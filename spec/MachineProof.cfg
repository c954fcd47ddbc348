SPECIFICATION Spec
INVARIANTS Agree AgreeEol
CHECK_DEADLOCK FALSE
