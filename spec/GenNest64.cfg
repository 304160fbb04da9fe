CONSTANTS
  Threads = {1, 2}
  Insts = {0, 1, 2}
  Limit = 64
  MaxLocks = 2
  CrossEnd = FALSE
  Emitting = TRUE
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
