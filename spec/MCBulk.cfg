SPECIFICATION MCSpec
CONSTANT Steps = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE
