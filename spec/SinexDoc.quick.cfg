SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 3
  Keys = {1, 2, 3}
  Epochs = {1, 2, 3, 4}
  Bads = {"few", "word", "epoch", "day366"}
  Others = {"*", "XPO", "%"}
CHECK_DEADLOCK FALSE
