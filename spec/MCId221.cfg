CONSTANTS
  Ib = 2
  Gb = 2
  Eb = 1
  IBytes = {0, 1, 128, 255}
  GBytes = {0, 1, 127, 128, 255}
  EBytes = {0, 1, 128, 255}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inverse Order Emit
