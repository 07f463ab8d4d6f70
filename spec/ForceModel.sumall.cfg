SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "sum"
  Size = 11
CHECK_DEADLOCK FALSE
