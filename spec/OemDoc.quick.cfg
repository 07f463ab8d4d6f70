SPECIFICATION Spec
INVARIANTS Numbered Emit
PROPERTY Kept
CONSTANTS
  MaxParts = 5
  Metas = {1, 2}
  Epochs = {1, 2}
  Bads = {"short", "word", "nan", "month", "day", "hour", "minute", "nodate"}
  Fields = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
