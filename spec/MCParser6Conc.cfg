SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}  Calls = 2  Locked = TRUE  Resets = TRUE
CONSTANT Texts <- Some
INVARIANTS AsAlone OneInside
CHECK_DEADLOCK FALSE
