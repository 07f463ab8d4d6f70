SPECIFICATION Spec
INVARIANTS Downward Still Light Square Once Named Emit
CONSTANTS
  Kind = "registry"
  Size = 4
CHECK_DEADLOCK FALSE
