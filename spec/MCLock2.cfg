SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  Comps <- MComps
  Types <- MTypes
  Rounds = 1
  AccAll = FALSE
  Mix = "all"
  p1 = p1
  p2 = p2
INVARIANTS Words Exclusion AllOrNone Alone WaitsEmpty Reasons
PROPERTIES Frozen Committed NoBarging Returns
CHECK_DEADLOCK FALSE
