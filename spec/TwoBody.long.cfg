SPECIFICATION Spec
CONSTANTS Kind = "long" Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
