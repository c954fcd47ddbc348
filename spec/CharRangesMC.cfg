SPECIFICATION ValSpec
CONSTANTS Depth = 0 Top = 3
INVARIANTS Exact Normal Unique Counted
PROPERTY Kept
CHECK_DEADLOCK FALSE
