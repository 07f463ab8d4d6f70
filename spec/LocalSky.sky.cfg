SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "sky"
  Size = 2
CHECK_DEADLOCK FALSE
