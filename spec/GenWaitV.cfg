CONSTANTS
  Threads = {1, 2, 3}
  TypeNames = {"AR", "N", "wA", "rA", "wAB", "wArB"}
  AccSets = {"M", "A", "B"}
  Inst = {0}
  Emitting = "woken"
INIT MInit
NEXT MNext
VIEW PastView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
