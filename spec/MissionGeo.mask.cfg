SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "mask"
  Size = 3
CHECK_DEADLOCK FALSE
