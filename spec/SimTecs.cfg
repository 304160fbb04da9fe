CONSTANTS
  NullH = "null"
  MaxActive = 64
  Threads = {1, 2}
  TypeNames = {"AR", "WA", "rAll", "wA", "rA", "wAB", "wABCra", "wAGrC", "rAGH", "N"}
  Vals = {1, 2}
  MaxTx = 6
  MaxEnts = 4
  MaxOps = 8
  MaxLocks = 3
  NInst = 1
  Ops = {"new", "set", "mod", "getm", "get", "prev", "unset", "destroy", "gset", "ggetm", "gget", "gunset", "full", "fullp", "copy", "ro", "sub", "list", "view", "watch", "stopw", "poll"}
  Record = TRUE
INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
INVARIANTS Emit
