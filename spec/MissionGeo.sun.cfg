SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "sun"
  Size = 0
CHECK_DEADLOCK FALSE
