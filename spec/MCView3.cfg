CONSTANTS
  MaxLen = 5
  Depth = 3
  Record = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Contiguous Composes RevRev Emit
