SPECIFICATION Spec
CONSTANTS Procs = {1}  Calls = 4  Locked = TRUE  Resets = TRUE
CONSTANT Texts <- Some
INVARIANTS AsAlone OneInside
CHECK_DEADLOCK FALSE
