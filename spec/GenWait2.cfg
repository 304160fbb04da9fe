CONSTANTS
  Threads = {1, 2}
  TypeNames = {"AR", "WA", "RA", "N", "rA", "wA", "rAB", "wAB", "wArB", "rAwB", "wAGrC", "rAGH", "wG"}
  AccSets = {"M", "A", "B", "G"}
  Inst = {0}
  Emitting = "all"
INIT MInit
NEXT MNext
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
