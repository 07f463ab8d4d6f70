SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "sky"
  Size = 0
CHECK_DEADLOCK FALSE
