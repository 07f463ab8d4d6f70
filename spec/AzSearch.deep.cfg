SPECIFICATION Spec
CONSTANTS
  Starts <- StartsQ
  Moves <- MovesQ
  Pieces = 4
  Windows <- WindowsD
  Bands <- BandsQ
  Bearings <- BearingsQ
  Hints = {0, 6}
  Shapes = {"line", "swing"}
INVARIANTS Complementary Alternate Emit
CHECK_DEADLOCK FALSE
