SPECIFICATION Spec
INVARIANTS Ends Direct Emit
CONSTANTS
  FirstYear = 1972
  LastYear = 2104
  FirstMjd = 41317
CHECK_DEADLOCK FALSE
