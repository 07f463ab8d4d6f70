SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "damage"
  MaxFlips = 3
CHECK_DEADLOCK FALSE
