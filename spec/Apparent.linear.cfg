SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "linear"
  Size = 0
CHECK_DEADLOCK FALSE
