SPECIFICATION Spec
CONSTANTS
  Bodies = {0, 3, 4, 10, 301, 399}
  Edges <- EdgesM
  Spans <- SpansM
  Kinds = {FALSE}
  MaxFiles = 1
  MaxTotal = 5
  Halves = {1, 2}
INVARIANTS TypeOK PathOK Complete Sound Emit
CHECK_DEADLOCK FALSE
