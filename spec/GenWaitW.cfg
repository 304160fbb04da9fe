CONSTANTS
  Threads = {1, 2, 3, 4}
  TypeNames = {"wA", "rA", "wB", "rAwB"}
  AccSets = {"A", "B"}
  Inst = {0}
  Emitting = "woken"
INIT MInit
NEXT MNext
VIEW PastView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
