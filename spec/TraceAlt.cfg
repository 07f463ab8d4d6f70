SPECIFICATION Spec
CONSTANT Part = "all"
CONSTRAINT Reached
INVARIANT SweepAlternates
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
