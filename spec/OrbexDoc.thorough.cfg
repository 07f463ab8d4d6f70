SPECIFICATION Spec
INVARIANTS Dated Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 5
  Epochs = {1, 2, 3}
  BadEpochs = {"word", "day0", "day366", "few"}
  Bads = {"word", "few"}
  Others = {"#XYZ", "%%", "+X", "blank", "note"}
CHECK_DEADLOCK FALSE
