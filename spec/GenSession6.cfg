SPECIFICATION SpecAll
CONSTANTS MaxOps = 2  MaxHeld = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
