SPECIFICATION Spec
INVARIANTS Ordered Emit
CONSTANTS
  Mode = "far"
  Bands = {1}
  Lons <- Few
CHECK_DEADLOCK FALSE
