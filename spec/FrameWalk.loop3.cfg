SPECIFICATION Spec
INVARIANTS Consistent Emit
CONSTANTS
  Mode = "loop"
  Size = 3
CHECK_DEADLOCK FALSE
