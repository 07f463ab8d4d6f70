SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "third"
  Size = 1
CHECK_DEADLOCK FALSE
