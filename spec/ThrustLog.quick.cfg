SPECIFICATION Spec
CONSTANTS
  MaxArcs = 3
  Used = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
INVARIANTS Conserved Chained Handover Emit
CHECK_DEADLOCK FALSE
