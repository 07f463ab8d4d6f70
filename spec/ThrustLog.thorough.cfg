SPECIFICATION Spec
CONSTANTS
  MaxArcs = 5
  Used = {1, 2, 3, 4, 5, 6, 7, 9, 15}
INVARIANTS Conserved Chained Handover Emit
CHECK_DEADLOCK FALSE
