SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "convention"
  Size = 1
CHECK_DEADLOCK FALSE
