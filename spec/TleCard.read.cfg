SPECIFICATION Spec
INVARIANTS Shape Textbook Emit
CONSTANTS
  Mode = "read"
  MaxDev = 2
CHECK_DEADLOCK FALSE
