SPECIFICATION Spec
CONSTANTS
  Slots = {a, b, c}
  Depth = 0
  Emit = FALSE
SYMMETRY Sym
CONSTRAINT Small
INVARIANTS Reads EndsMatch MasterRight EqRight Emits
CHECK_DEADLOCK FALSE
