SPECIFICATION Spec
INVARIANTS Never Emit
CONSTANTS
  Mode = "read"
  MaxDev = 2
  Encodings = {"kvn", "xml", "json"}
  Layouts = {0, 1}
CHECK_DEADLOCK FALSE
