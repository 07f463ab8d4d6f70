SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 7
  Lines = {"meta[", "]meta", "data[", "]data", "part", "mode", "RANGE", "ANGLE_1", "nocolon", "word", "note"}
CHECK_DEADLOCK FALSE
