SPECIFICATION Spec
INVARIANTS Ordered Emit
CONSTANTS
  Mode = "local"
  Bands = {1,2,3,30,57,58}
  Lons <- Few
CHECK_DEADLOCK FALSE
