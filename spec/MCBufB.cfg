SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  p1 = p1
  p2 = p2
  Comps = {"A", "B"}
  Types <- MTypes
  Mix = "two"
  Vals = {1}
  MaxSlots = 2
  MaxTx = 2
  MaxOps = 2
  Fine = TRUE
INVARIANTS SeesSnapshot SeesOwn Latest Quiet NetOnly FreeIsFree NoRemains
PROPERTIES ListsStable ReadFrozen Ends
CHECK_DEADLOCK FALSE
