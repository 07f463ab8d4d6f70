SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "small"
  Size = 1
CHECK_DEADLOCK FALSE
