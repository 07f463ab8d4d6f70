SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "site"
  Size = 2
CHECK_DEADLOCK FALSE
