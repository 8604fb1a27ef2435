SPECIFICATION Spec
INVARIANT ReadsTrue
CHECK_DEADLOCK FALSE
CONSTANTS
 Readers = {1, 2, 3}
 Nodes = 4
 Own = TRUE
 Keeps = "torn"
