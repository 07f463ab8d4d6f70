SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "position"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
