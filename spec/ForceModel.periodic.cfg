SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "periodic"
  Size = 9
CHECK_DEADLOCK FALSE
