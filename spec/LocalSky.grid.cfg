SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "grid"
  Size = 0
CHECK_DEADLOCK FALSE
