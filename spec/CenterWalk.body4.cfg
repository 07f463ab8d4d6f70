SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "body"
  Size = 4
CHECK_DEADLOCK FALSE
