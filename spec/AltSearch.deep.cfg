SPECIFICATION Spec
CONSTANTS
  NSlots = 5
  Levels = {35, 77, 98, 136}
  ThrLo = 84
  ThrHi = 117
  Starts = {0, 2}
  Ends = {1, 4}
  Shapes = {1, 2, 4}
  Hints = {0, 1}
  Tols = {0, 2}
  OnThr = FALSE
  Plateaus = TRUE
INVARIANTS TypeOK Alternate Partition RisesOpenAbove HiInsideLo BandMeaning CulmAlternate Emit
CHECK_DEADLOCK FALSE
