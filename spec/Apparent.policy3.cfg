SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "policy"
  Size = 3
CHECK_DEADLOCK FALSE
