SPECIFICATION Spec
INVARIANTS Numbered Emit
PROPERTY Kept
CONSTANTS
  MaxParts = 6
  Metas = {1, 2, 3}
  Epochs = {1, 3, 4}
  Bads = {"short", "word", "nan", "month", "day", "hour", "minute", "nodate"}
  Fields = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
