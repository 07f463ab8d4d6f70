SPECIFICATION Spec
INVARIANTS Whole Emit
CONSTANTS
  Mode = "damage"
  MaxFlips = 2
CHECK_DEADLOCK FALSE
