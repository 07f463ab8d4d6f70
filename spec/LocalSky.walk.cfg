SPECIFICATION Spec
INVARIANTS Length Kept Told Pole Tiled Emit
CONSTANTS
  Kind = "walk"
  Size = 2
CHECK_DEADLOCK FALSE
