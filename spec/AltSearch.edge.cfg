SPECIFICATION Spec
CONSTANTS
  NSlots = 3
  Levels = {60, 84, 100, 117, 130}
  ThrLo = 84
  ThrHi = 117
  Starts = {0, 2}
  Ends = {2, 4}
  Shapes = {3, 6}
  Hints = {0, 3}
  Tols = {0}
  OnThr = TRUE
  Plateaus = FALSE
INVARIANTS TypeOK Alternate Partition RisesOpenAbove HiInsideLo BandMeaning CulmAlternate Emit
CHECK_DEADLOCK FALSE
