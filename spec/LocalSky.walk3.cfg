SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "walk"
  Size = 3
CHECK_DEADLOCK FALSE
