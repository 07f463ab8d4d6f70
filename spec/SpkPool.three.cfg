SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 301, 399}
  Edges <- EdgesQ
  Spans <- SpansT
  UnsupKinds = {FALSE, TRUE}
  MaxFiles = 3
  MaxTotal = 3
  Epochs = {1, 2, 3}
INVARIANTS TypeOK Antisymmetric WellFormed Emit
CHECK_DEADLOCK FALSE
