SPECIFICATION Spec
INVARIANTS NoSmear Emit
CONSTANTS
  MaxLines = 5
  Rates <- QRates
  Leaps <- QLeaps
  Others = {"#", "blank", "few", "wordx", "wordut1", "worddy", "wordmjd", "text"}
CHECK_DEADLOCK FALSE
