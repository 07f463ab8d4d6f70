SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "body"
  Size = 3
CHECK_DEADLOCK FALSE
