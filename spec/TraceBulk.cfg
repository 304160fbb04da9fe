INIT TInit
NEXT TNext
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
