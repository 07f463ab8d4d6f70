SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "velocity"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
