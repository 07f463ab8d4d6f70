SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxLines = 8
  Lines = {"meta[", "]meta", "data[", "]data", "part", "mode", "path", "time", "RANGE", "DOPPLER_INSTANTANEOUS", "TRANSMIT_FREQ_1", "novalue", "note"}
CHECK_DEADLOCK FALSE
