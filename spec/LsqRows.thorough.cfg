SPECIFICATION Spec
CONSTANTS
  MaxRows = 5
  Used = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13}
INVARIANTS OrderFree Semidefinite Unknowns Emit
CHECK_DEADLOCK FALSE
