SPECIFICATION Spec
CONSTANTS Kind = "ellipse" Size = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
