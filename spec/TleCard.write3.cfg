SPECIFICATION Spec
INVARIANTS Shape Textbook Emit
CONSTANTS
  Mode = "write"
  MaxDev = 3
CHECK_DEADLOCK FALSE
