SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 301, 399}
  Edges <- EdgesT
  Spans <- SpansQ
  UnsupKinds = {FALSE}
  MaxFiles = 2
  MaxTotal = 4
  Epochs = {1, 2, 3}
INVARIANTS TypeOK Antisymmetric WellFormed Emit
CHECK_DEADLOCK FALSE
