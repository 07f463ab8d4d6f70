SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 10, 301, 399}
  Edges <- EdgesT
  Spans <- SpansT
  Kinds = {FALSE}
  MaxFiles = 2
  MaxTotal = 4
  Halves = {1, 2}
INVARIANTS TypeOK PathOK Complete Sound Emit
CHECK_DEADLOCK FALSE
