SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 301, 399}
  Edges <- EdgesQ
  Spans <- SpansQ
  Kinds = {FALSE, TRUE}
  MaxFiles = 2
  MaxTotal = 3
  Halves = {1, 2}
INVARIANTS TypeOK PathOK Complete Sound Emit
CHECK_DEADLOCK FALSE
