SPECIFICATION Spec
CONSTANTS Kind = "hyperbola" Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
