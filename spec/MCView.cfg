CONSTANTS
  MaxLen = 4
  Depth = 2
  Record = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Contiguous Composes RevRev Emit
