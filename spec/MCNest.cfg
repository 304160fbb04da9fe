CONSTANTS
  Threads = {1, 2, 3}
  Insts = {0, 1, 2}
  Limit = 2
  MaxLocks = 2
  CrossEnd = FALSE
  Emitting = FALSE
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS RegExact DecidesRight
