SPECIFICATION Spec
CONSTANTS
  Durations = {0, 3, 7}
  MaxSegments = 4
  Elapsed = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 28, 30}
INVARIANTS Monotone Starts Emit
CHECK_DEADLOCK FALSE
