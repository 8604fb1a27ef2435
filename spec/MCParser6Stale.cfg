SPECIFICATION Spec
CONSTANTS Procs = {1}  Calls = 2  Locked = TRUE  Resets = FALSE
CONSTANT Texts <- Some
INVARIANTS AsAlone OneInside
CHECK_DEADLOCK FALSE
