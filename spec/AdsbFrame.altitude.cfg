SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "altitude"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
