CONSTANTS
  Comps = {"A", "G"}
  Globals = {"G"}
  MaxLen = 2
  Third = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Order Exact Monotone WriteReads
