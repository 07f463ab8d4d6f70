SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "moving"
  Size = 2
CHECK_DEADLOCK FALSE
