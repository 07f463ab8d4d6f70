SPECIFICATION Spec
INVARIANT Emit
PROPERTY Kept
CONSTANTS
  MaxRecords = 3
  Styles = {"plain", "packed", "lower", "text"}
  Times = {1, 2, 3}
  Bads = {"prn0", "prnx", "prnaccent", "year", "feb30", "sec60", "nansec", "minus", "few0", "word0", "few1", "few2", "few3", "few4", "few5", "word1", "word2", "word3", "word4", "word5"}
  Others = {"R", "E", "short", "accent"}
  Cuts = {1, 7}
CHECK_DEADLOCK FALSE
