SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 4
  Times = {1, 2, 3, 4}
  Bads = {"mjd", "sod", "xyz", "short", "negsod", "nansod", "hugesod", "hugemjd"}
  Others = {"20", "30", "blank", "77"}
CHECK_DEADLOCK FALSE
