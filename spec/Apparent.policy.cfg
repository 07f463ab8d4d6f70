SPECIFICATION Spec
INVARIANTS Whole Straight Away Sphere Emit
CONSTANTS
  Kind = "policy"
  Size = 2
CHECK_DEADLOCK FALSE
