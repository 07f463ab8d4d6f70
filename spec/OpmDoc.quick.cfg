SPECIFICATION Spec
INVARIANTS Never Emit
CONSTANTS
  MaxFlaws = 2
  Order = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
