CONSTANTS
  Threads = {1, 2, 3}
  TypeNames = {"AR", "WA", "wAB", "wA", "wB", "rA", "rB", "rAB", "N"}
  AccSets = {"M", "A", "B"}
  Inst = {0}
  Emitting = "held"
INIT MInit
NEXT MNext
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
