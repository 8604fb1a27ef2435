SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}  Calls = 2  Locked = TRUE
CONSTANT Texts <- TheTexts
INVARIANTS AsAlone Finished Mutual
PROPERTY Ends
CHECK_DEADLOCK FALSE
