SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "cone"
  Size = 1
CHECK_DEADLOCK FALSE
