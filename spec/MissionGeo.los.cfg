SPECIFICATION Spec
INVARIANTS Lightens Emit
CONSTANTS
  Mode = "los"
  Size = 2
CHECK_DEADLOCK FALSE
