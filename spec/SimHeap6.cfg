SPECIFICATION SimSpec
CONSTANTS MaxOps = 20  MaxHandles = 16  Few = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
