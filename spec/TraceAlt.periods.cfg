SPECIFICATION Spec
CONSTANT Part = "periods"
CONSTRAINT Reached
INVARIANT SweepAlternates
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
