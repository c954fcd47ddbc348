SPECIFICATION GenSpec
CONSTANTS Depth = 24 Top = 9
INVARIANTS Exact Normal Unique Emits
CHECK_DEADLOCK FALSE
