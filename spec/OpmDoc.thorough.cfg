SPECIFICATION Spec
INVARIANTS Never Emit
CONSTANTS
  MaxFlaws = 3
  Order = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
