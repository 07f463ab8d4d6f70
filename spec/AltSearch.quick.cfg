SPECIFICATION Spec
CONSTANTS
  NSlots = 4
  Levels = {35, 77, 98, 136}
  ThrLo = 84
  ThrHi = 117
  Starts = {0, 2}
  Ends = {3, 4}
  Shapes = {0, 1, 2}
  Hints = {0, 1}
  Tols = {0}
  OnThr = FALSE
  Plateaus = TRUE
INVARIANTS TypeOK Alternate Partition RisesOpenAbove HiInsideLo BandMeaning CulmAlternate Emit
CHECK_DEADLOCK FALSE
