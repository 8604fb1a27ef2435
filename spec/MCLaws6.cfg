INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
