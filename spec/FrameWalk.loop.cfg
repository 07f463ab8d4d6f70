SPECIFICATION Spec
INVARIANTS Consistent Emit
CONSTANTS
  Mode = "loop"
  Size = 2
CHECK_DEADLOCK FALSE
