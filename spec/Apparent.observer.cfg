SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "observer"
  Size = 0
CHECK_DEADLOCK FALSE
