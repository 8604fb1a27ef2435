SPECIFICATION Spec
CONSTANTS Depth = 3 Regroup = FALSE
INVARIANT Grammatical
CHECK_DEADLOCK FALSE
