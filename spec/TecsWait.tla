--------------------------------- MODULE TecsWait ---------------------------------
(***************************************************************************)
(* Who waits for whom: starting and ending of transactions at the level of *)
(* permissions and accesses, without data.                                 *)
(*                                                                         *)
(* A transaction is requested (StartCall), runs from Begin to its last     *)
(* release (DropCall), then commits what it accessed for writing, one      *)
(* resource after the other (Pick, Acquire), and is gone (Done).  The      *)
(* resources are the components and the metadata "M": every transaction    *)
(* reads M, one with AddRemove writes it.                                  *)
(*                                                                         *)
(* MCWait.tla explores this model with eager internal steps (a step that   *)
(* can be taken is taken) and checks C04-C07 on it; its transitions become *)
(* scenarios for the real code.  TraceWait.tla decides whether the waiting *)
(* observed in the real code is allowed.  TecsLock.tla refines Begin and   *)
(* the commit to the single atomic operations of the implementation.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

M == "M"
None == "-"

VARIABLE tx     \* transaction -> [th, i, r, w, ar, st, acc, got, cur]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Remove(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Empty == [x \in {} |-> 0]

\* What a transaction with these permissions locks
WantsW(T) == T.w \cup (IF T.ar THEN {M} ELSE {})
WantsR(T) == (T.r \ T.w) \cup (IF T.ar THEN {} ELSE {M})

Is(x, s) == tx[x].st = s
Others(x) == {y \in DOMAIN tx \ {x} : tx[y].i = tx[x].i}

\* Transactions that read resource c; an ending one keeps reading the metadata until it is done.
Readers(x, c) == {y \in Others(x) : \/ Is(y, "act") /\ c \in WantsR(tx[y])
                                    \/ Is(y, "end") /\ c = M /\ ~tx[y].ar}
\* What keeps a start from happening: a running writer of what it wants to write, ...
WriterBlocks(y) == {x \in Others(y) : Is(x, "act") /\ WantsW(tx[x]) \cap WantsW(tx[y]) # {}}
\* ... or a commit in progress on what it wants to read or write.
Closed(x) == tx[x].got \cup ({tx[x].cur} \ {None})
CommitBlocks(y) == {x \in Others(y) : Is(x, "end") /\ \/ tx[x].acc \cap WantsW(tx[y]) # {}
                                                      \/ Closed(x) \cap WantsR(tx[y]) # {}}
StartBlocks(y) == WriterBlocks(y) \cup CommitBlocks(y)

NewTx(t, i, r, w, ar) == [th |-> t, i |-> i, r |-> r, w |-> w, ar |-> ar, st |-> "req", acc |-> {}, got |-> {}, cur |-> None]

StartCall(x, t, i, r, w, ar) == x \notin DOMAIN tx /\ tx' = Put(tx, x, NewTx(t, i, r, w, ar))
Begin(x) == Is(x, "req") /\ StartBlocks(x) = {} /\ tx' = [tx EXCEPT ![x].st = "act"]
Access(x, cs) == Is(x, "act") /\ tx' = [tx EXCEPT ![x].acc = @ \cup cs]
DropCall(x) == Is(x, "act") /\ tx' = [tx EXCEPT ![x].st = "end"]
Pick(x) == /\ Is(x, "end") /\ tx[x].cur = None
           /\ \E c \in tx[x].acc \ tx[x].got : tx' = [tx EXCEPT ![x].cur = c]
Acquire(x) == /\ Is(x, "end") /\ tx[x].cur # None /\ Readers(x, tx[x].cur) = {}
              /\ tx' = [tx EXCEPT ![x].got = @ \cup {tx[x].cur}, ![x].cur = None]
Done(x) == Is(x, "end") /\ tx[x].acc = tx[x].got /\ tx' = Remove(tx, {x})
Internal(x) == Begin(x) \/ Pick(x) \/ Acquire(x) \/ Done(x)

Pending == {x \in DOMAIN tx : tx[x].st \in {"req", "end"}}
Quiet == \A x \in DOMAIN tx : ~ENABLED Internal(x)

-------------------------------------------------------------------------------
(* The user-level statements *)

\* C03
Exclusion == \A x, y \in DOMAIN tx : x # y /\ tx[x].i = tx[y].i /\ Is(x, "act") /\ Is(y, "act") => WantsW(tx[x]) \cap WantsW(tx[y]) = {}

\* C04: a waiting start is justified by a writer of what it wants to write, or by a commit of what it wants to read or write;
StartJustified(y) == \E x \in Others(y) :
    \/ Is(x, "act") /\ WantsW(tx[x]) \cap WantsW(tx[y]) # {}
    \/ Is(x, "end") /\ tx[x].acc \cap (WantsW(tx[y]) \cup WantsR(tx[y])) # {}
\* a waiting end by a reader of something it accessed.
EndJustified(x) == \E c \in tx[x].acc : \E y \in Others(x) : tx[y].st \in {"act", "end"} /\ c \in WantsR(tx[y])
Justified == \A x \in Pending : IF Is(x, "req") THEN StartJustified(x) ELSE EndJustified(x)
\* C05: whoever waits, somebody can go on.
NoDeadlock == Pending # {} => \E x \in DOMAIN tx : Is(x, "act")
\* C07: waiting starts delay nobody: whatever is blocked is also blocked without them.
WithoutReq == [x \in {x \in DOMAIN tx : ~Is(x, "req")} |-> tx[x]]
===============================================================================
