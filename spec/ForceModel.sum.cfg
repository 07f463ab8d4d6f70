SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "sum"
  Size = 3
CHECK_DEADLOCK FALSE
