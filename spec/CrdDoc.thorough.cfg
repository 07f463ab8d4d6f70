SPECIFICATION Spec
INVARIANTS NextDay Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 5
  Starts = {0, 3, 6, 7}
  Bads = {"sod", "tof", "short"}
  Others = {"H5", "50", "blank"}
CHECK_DEADLOCK FALSE
