INIT Init
NEXT Next
VIEW Where
INVARIANT Finished
CHECK_DEADLOCK FALSE
