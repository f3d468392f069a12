SPECIFICATION Spec
INVARIANT OnlyBlocks AllBlocks NoWaiting Room
CHECK_DEADLOCK FALSE
