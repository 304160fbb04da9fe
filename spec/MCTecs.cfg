CONSTANTS
  NullH = "null"
  MaxActive = 64
  Threads = {1, 2}
  TypeNames = {"AR", "wA", "rA"}
  Vals = {1}
  MaxTx = 3
  MaxEnts = 2
  MaxOps = 2
  MaxLocks = 1
  NInst = 1
  Ops = {"new", "set", "unset", "destroy"}
  Record = FALSE
INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
INVARIANTS Exclusion Latest LockRefs LockPerms ViewsOK HandlesOK StoresOK PresenceStable
PROPERTIES SnapshotStable CommitOnly CommitsAll NoResurrection OneEntity ViewStable ObsForward
