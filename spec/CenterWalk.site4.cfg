SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "site"
  Size = 4
CHECK_DEADLOCK FALSE
