SPECIFICATION Spec
INVARIANTS Ordered Emit
CONSTANTS
  Mode = "near"
  Bands = {1,2,3,10,11,30,42,57,58}
  Lons <- Few
CHECK_DEADLOCK FALSE
