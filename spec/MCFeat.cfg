CONSTANTS
  NullH = "null"
  MaxActive = 64
  Threads = {1, 2}
  TypeNames = {"AR", "wA"}
  Vals = {1}
  MaxTx = 2
  MaxEnts = 1
  MaxOps = 2
  MaxLocks = 2
  NInst = 1
  Ops = {"new", "set", "getm", "unset", "list", "ro", "watch", "poll", "gset"}
  Record = FALSE
INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
INVARIANTS Exclusion Latest LockRefs LockPerms ViewsOK HandlesOK StoresOK PresenceStable
PROPERTIES SnapshotStable CommitOnly CommitsAll NoResurrection OneEntity ViewStable ObsForward
