SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Pairs <- PairsQ
  Ops = {1, 3, 4, 6, 7, 8, 9, 10, 11, 13, 14, 17}
INVARIANTS Psd SplitGap Emit
PROPERTY NoWorse
CHECK_DEADLOCK FALSE
