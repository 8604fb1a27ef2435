SPECIFICATION Spec
CONSTANTS Procs = {1, 2}  Calls = 2  Locked = FALSE
CONSTANT Texts <- TheTexts
INVARIANTS AsAlone Finished Mutual
CHECK_DEADLOCK FALSE
