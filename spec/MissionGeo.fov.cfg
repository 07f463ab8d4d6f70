SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "fov"
  Size = 4
CHECK_DEADLOCK FALSE
