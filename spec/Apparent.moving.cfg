SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "moving"
  Size = 1
CHECK_DEADLOCK FALSE
