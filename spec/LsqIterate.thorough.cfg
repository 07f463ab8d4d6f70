SPECIFICATION Spec
CONSTANTS
  MaxObs = 4
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
