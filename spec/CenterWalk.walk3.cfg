SPECIFICATION Spec
INVARIANTS WayIndependent OnePoint Returns Emit
CONSTANTS
  Mode = "walk"
  Size = 3
CHECK_DEADLOCK FALSE
