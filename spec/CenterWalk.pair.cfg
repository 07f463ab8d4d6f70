SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "pair"
  Size = 1
CHECK_DEADLOCK FALSE
