SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "format"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
