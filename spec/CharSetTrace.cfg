SPECIFICATION Spec
INVARIANT RightSet
CHECK_DEADLOCK FALSE
