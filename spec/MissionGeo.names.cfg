SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "names"
  Size = 4
CHECK_DEADLOCK FALSE
