INIT XInit
NEXT XNext
INVARIANT XWritten
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
