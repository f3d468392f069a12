SPECIFICATION Spec
INVARIANT SameRefusals SameChains
CHECK_DEADLOCK FALSE
