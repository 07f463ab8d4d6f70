SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "mask"
  Size = 4
CHECK_DEADLOCK FALSE
