SPECIFICATION Spec
CONSTANTS Kind = "refuse" Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
