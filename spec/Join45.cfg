SPECIFICATION Spec
CONSTANTS Depth = 6 Regroup = TRUE
INVARIANT Grammatical
CHECK_DEADLOCK FALSE
