CONSTANTS
  Ib = 4
  Gb = 4
  Eb = 1
  IBytes = {0, 255}
  GBytes = {0, 1, 128, 255}
  EBytes = {0, 1, 128, 255}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inverse Order Emit
