INIT Init
NEXT Next
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANT ClocksOK
