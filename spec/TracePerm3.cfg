CONSTANTS
  Comps = {"A", "B", "G"}
  Globals = {"G"}
INIT Init
NEXT Next
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
