SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "moving"
  Size = 3
CHECK_DEADLOCK FALSE
