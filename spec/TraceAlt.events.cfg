SPECIFICATION Spec
CONSTANT Part = "events"
CONSTRAINT Reached
INVARIANT SweepAlternates
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
