SPECIFICATION Spec
CONSTANTS Kind = "fly" Size = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
