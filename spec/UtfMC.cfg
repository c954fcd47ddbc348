SPECIFICATION Spec
CONSTANTS
  Slots = {s1, s2, s3}
  Depth = 0
  Emit = FALSE
SYMMETRY Sym
INVARIANTS Gives Starts EqRight
CHECK_DEADLOCK FALSE
