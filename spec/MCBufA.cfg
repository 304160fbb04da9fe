SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  p1 = p1
  p2 = p2
  Comps = {"A"}
  Types <- MTypes
  Mix = "ar"
  Vals = {1}
  MaxSlots = 2
  MaxTx = 3
  MaxOps = 2
  Fine = FALSE
INVARIANTS SeesSnapshot SeesOwn Latest Quiet NetOnly FreeIsFree NoRemains
PROPERTIES ListsStable ReadFrozen Ends
CHECK_DEADLOCK FALSE
