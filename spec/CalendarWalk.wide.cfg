SPECIFICATION Spec
INVARIANTS Ends Direct Emit
CONSTANTS
  FirstYear = 1859
  LastYear = 2203
  FirstMjd = 45
CHECK_DEADLOCK FALSE
