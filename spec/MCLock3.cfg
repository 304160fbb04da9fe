SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Comps <- MComps
  Types <- MTypes
  Rounds = 1
  AccAll = FALSE
  Mix = "one"
  p1 = p1
  p3 = p3
  p2 = p2
INVARIANTS Words Exclusion AllOrNone Alone WaitsEmpty Reasons
PROPERTIES Frozen Committed NoBarging
SYMMETRY Perms
CHECK_DEADLOCK FALSE
