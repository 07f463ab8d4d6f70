SPECIFICATION Spec
INVARIANTS Shape Textbook Emit
CONSTANTS
  Mode = "write"
  MaxDev = 2
CHECK_DEADLOCK FALSE
