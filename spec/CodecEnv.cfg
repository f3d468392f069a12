INIT Init
NEXT Next
INVARIANT Written
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
