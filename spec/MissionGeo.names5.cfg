SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "names"
  Size = 5
CHECK_DEADLOCK FALSE
