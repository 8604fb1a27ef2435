SPECIFICATION Spec
CONSTANTS Procs = {1, 2}  Calls = 1  Locked = FALSE  Resets = TRUE
CONSTANT Texts <- Some
INVARIANTS AsAlone OneInside
CHECK_DEADLOCK FALSE
