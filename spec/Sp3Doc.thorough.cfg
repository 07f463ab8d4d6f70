SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 6
  Epochs = {1, 2, 3, 4}
  BadEpochs = {"word", "nan", "minus", "sixty", "feb30", "short"}
  Sats = {1, 2, 3}
  BadSats = {"few", "word", "stub"}
  Others = {"V", "EP", "EV", "blank"}
CHECK_DEADLOCK FALSE
