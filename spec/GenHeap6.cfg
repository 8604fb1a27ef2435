SPECIFICATION Spec
CONSTANTS MaxOps = 3  MaxHandles = 3  Few = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
