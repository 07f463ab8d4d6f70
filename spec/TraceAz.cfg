SPECIFICATION Spec
CONSTRAINT Reached
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
