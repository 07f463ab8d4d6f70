SPECIFICATION Spec
CONSTANTS
  MaxObs = 3
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
