SPECIFICATION Spec
CONSTANTS
  Starts <- StartsT
  Moves <- MovesT
  Pieces = 3
  Windows <- WindowsT
  Bands <- BandsT
  Bearings <- BearingsT
  Hints = {0, 5, 6, 12}
  Shapes = {"line", "swing"}
INVARIANTS Complementary Alternate Emit
CHECK_DEADLOCK FALSE
