SPECIFICATION Spec
CONSTANTS MaxDamage = 2
INVARIANTS RefusedWhole Emit
CHECK_DEADLOCK FALSE
