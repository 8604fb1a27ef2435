SPECIFICATION SpecDrawn
CONSTANTS MaxOps = 40  MaxHeld = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
