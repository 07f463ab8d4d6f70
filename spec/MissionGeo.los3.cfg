SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "los"
  Size = 3
CHECK_DEADLOCK FALSE
