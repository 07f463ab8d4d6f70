SPECIFICATION Spec
CONSTANTS Kind = "fly" Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
