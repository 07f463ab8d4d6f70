SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 301, 399}
  Edges <- EdgesQ
  Spans <- SpansQ
  UnsupKinds = {FALSE, TRUE}
  MaxFiles = 2
  MaxTotal = 3
  Epochs = {1, 2, 3}
INVARIANTS TypeOK Antisymmetric WellFormed Emit
CHECK_DEADLOCK FALSE
