SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "sky"
  Size = 5
CHECK_DEADLOCK FALSE
