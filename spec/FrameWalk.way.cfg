SPECIFICATION Spec
INVARIANTS Consistent Emit
CONSTANTS
  Mode = "way"
  Size = 1
CHECK_DEADLOCK FALSE
