SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "shadow"
  Size = 0
CHECK_DEADLOCK FALSE
