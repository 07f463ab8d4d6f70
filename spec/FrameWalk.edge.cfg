SPECIFICATION Spec
INVARIANTS Consistent Emit
CONSTANTS
  Mode = "edge"
  Size = 1
CHECK_DEADLOCK FALSE
