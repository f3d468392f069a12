INIT Init
NEXT Next
INVARIANT Finished
CHECK_DEADLOCK FALSE
