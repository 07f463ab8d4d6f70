SPECIFICATION Spec
INVARIANTS Never Emit
CONSTANTS
  Mode = "hold"
  MaxDev = 2
  Encodings = {"kvn", "xml", "json"}
  Layouts = {0}
CHECK_DEADLOCK FALSE
