SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Pairs <- PairsQ
  Ops = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
INVARIANTS Psd SplitGap Emit
PROPERTY NoWorse
CHECK_DEADLOCK FALSE
