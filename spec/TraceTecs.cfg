CONSTANTS
  NullH = "null"
  MaxActive <- TraceMaxActive
INIT Init
NEXT Next
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANTS Exclusion Latest LockRefs LockPerms ViewsOK HandlesOK
