CONSTANTS
  Threads = {1, 2, 3}
  TypeNames = {"AR", "wA", "rA", "wArB", "rAwB", "N"}
  AccSets = {"M", "A", "B"}
  Inst = {0}
  Emitting = "all"
INIT MInit
NEXT MNext
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
