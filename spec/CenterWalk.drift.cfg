SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "drift"
  Size = 2
CHECK_DEADLOCK FALSE
