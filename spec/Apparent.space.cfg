SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "space"
  Size = 2
CHECK_DEADLOCK FALSE
