SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 10
  Antennas = {1, 2}
  Freqs = {1, 2}
  Offsets = {1, 2}
CHECK_DEADLOCK FALSE
