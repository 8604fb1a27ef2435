SPECIFICATION Spec
CONSTANTS MaxOps = 5  MaxHandles = 4  Few = TRUE
VIEW View
INVARIANTS Inv NoLeak
CHECK_DEADLOCK FALSE
