SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  Comps <- MComps
  Types <- MTypes
  Rounds = 1
  AccAll = TRUE
  Mix = "one"
  p1 = p1
  p2 = p2
INVARIANTS Words Exclusion AllOrNone Alone WaitsEmpty Reasons
PROPERTIES Frozen Committed NoBarging Returns
CHECK_DEADLOCK FALSE
