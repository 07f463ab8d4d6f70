SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "ident"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
