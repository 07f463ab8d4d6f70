SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 4
  Epochs = {1, 2, 3}
  BadEpochs = {"month13", "feb30", "hour", "word", "few"}
CHECK_DEADLOCK FALSE
