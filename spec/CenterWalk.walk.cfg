SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "walk"
  Size = 2
CHECK_DEADLOCK FALSE
