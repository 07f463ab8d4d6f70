SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "registry"
  Size = 2
CHECK_DEADLOCK FALSE
