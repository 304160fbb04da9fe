CONSTANTS
  Threads = {1, 2}
  Insts = {0, 1}
  Limit = 2
  MaxLocks = 2
  CrossEnd = TRUE
  Emitting = TRUE
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
