SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "space"
  Size = 4
CHECK_DEADLOCK FALSE
