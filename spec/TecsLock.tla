--------------------------------- MODULE TecsLock ---------------------------------
(***************************************************************************)
(* The locking of the implementation, one action per atomic operation on   *)
(* the two words of every resource (readers, writer): compare-and-swap     *)
(* loops that may fail spuriously, waiting and notifying with the          *)
(* semantics of std::atomic, the back-off of a start that cannot have all  *)
(* its resources at once, and the order in which a release unlocks,        *)
(* commit-locks, swaps and unlocks.                                        *)
(*                                                                         *)
(* This is the design-level argument behind TecsWait.tla and Tecs.tla,     *)
(* where a start and the visible part of a commit are single actions: the  *)
(* statements at the end say, for the atomic steps, that active writers    *)
(* exclude each other (C03), that nobody sees half a commit (C01), that a  *)
(* waiting start holds nothing (C07), that whoever sleeps has a reason     *)
(* TecsWait.tla knows (C04) and somebody can go on (C05), that no reader   *)
(* called after a commit closed a resource gets it (C06), and that every   *)
(* call returns (C05).  It does not judge the code: another implementation *)
(* of the same guarantees is as good.                                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Procs, Comps,    \* Comps: sequence of the components, in the order of the implementation
          Types,           \* set of [r, w, ar]
          Rounds,          \* transactions of each process
          AccAll           \* TRUE: a transaction accesses all it may write, or nothing

M == "M"
Order == <<M>> \o Comps
Res == {Order[k] : k \in 1..Len(Order)}
Free == 0
Locked == 99      \* of readers: a commit has the resource
WLocked == 1
WCommit == 2

VARIABLES readers, writer,  \* the two atomic words of each resource
          ver,              \* what the resource shows: the set of committed transactions <<process, round>>
          ty,               \* process -> permissions of its current transaction
          st,               \* process -> "idle", "start", "act", "end"
          rnd,              \* process -> number of the current transaction
          acc,              \* process -> accessed for writing
          acq,              \* process -> resources held
          todo,             \* process -> micro-operations to do
          rd, wr,           \* process -> values loaded
          zz,               \* process -> <<>> or <<word, resource, value>> it sleeps on
          closedBefore      \* process -> the commits (<<resource, process, round>>) that had closed a resource when the current start was called
vars == <<readers, writer, ver, ty, st, rnd, acc, acq, todo, rd, wr, zz, closedBefore>>

Wants(p) == {M} \cup ty[p].r \cup ty[p].w
WantsW(p) == ty[p].w \cup (IF ty[p].ar THEN {M} ELSE {})
WantsR(p) == Wants(p) \ WantsW(p)
Need(p) == SelectSeq(Order, LAMBDA c : c \in Wants(p))
Pos(s, c) == CHOOSE k \in 1..Len(s) : s[k] = c
\* The elements of s after c, cyclically, and c last
After(s, c) == LET k == Pos(s, c) IN SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)

Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

LockOp(p, c) == <<IF c \in WantsW(p) THEN "wl1" ELSE "rl1", c>>
UnlockW(c) == <<<<"wu1", c>>, <<"wu2", c>>, <<"wu3", c>>, <<"wu4", c>>>>
UnlockR(c) == <<<<"ru1", c>>, <<"ru2", c>>>>
Unlock(p, c) == IF c \in WantsW(p) THEN UnlockW(c) ELSE UnlockR(c)
CommitLock(c) == <<<<"cl1", c>>, <<"cl2", c>>>>
CommitUnlock(c) == <<<<"sw", c>>, <<"cu1", c>>, <<"cu2", c>>, <<"cu3", c>>, <<"cu4", c>>>>

Acc(p, cs) == Map(SelectSeq(Order, LAMBDA c : c \in cs), LAMBDA c : c)
Release(p, a) ==
    LET needC == SelectSeq(Comps, LAMBDA c : c \in Wants(p))
        early == SelectSeq(needC, LAMBDA c : c \notin a)
        accC == SelectSeq(Comps, LAMBDA c : c \in a)
        accs == SelectSeq(Order, LAMBDA c : c \in a)
        \* entity lists and metadata are swapped together before the metadata is unlocked
        swM == IF M \in a THEN CommitUnlock(M) ELSE << >>
    IN Flat(Map(early, LAMBDA c : Unlock(p, c))) \o Flat(Map(accs, CommitLock)) \o swM
       \o Flat(Map(accC, CommitUnlock)) \o Flat(Map(accC, UnlockW)) \o Unlock(p, M)

Init == /\ readers = [c \in Res |-> Free] /\ writer = [c \in Res |-> Free] /\ ver = [c \in Res |-> {}]
        /\ ty \in [Procs -> Types]
        /\ st = [p \in Procs |-> "idle"] /\ rnd = [p \in Procs |-> 1]
        /\ acc = [p \in Procs |-> {}] /\ acq = [p \in Procs |-> {}] /\ todo = [p \in Procs |-> << >>]
        /\ rd = [p \in Procs |-> Free] /\ wr = [p \in Procs |-> Free] /\ zz = [p \in Procs |-> << >>]
        /\ closedBefore = [p \in Procs |-> {}]

Op(p) == Head(todo[p])[1]
At(p) == Head(todo[p])[2]
Is(p, o) == todo[p] # << >> /\ zz[p] = << >> /\ Op(p) = o
Rest(p) == Tail(todo[p])
\* Everything but the micro-operations and the words
Same == UNCHANGED <<ver, ty, st, rnd, acc, closedBefore>>

\* Process q is committing, and keeps new readers from c.
Closes(q, c) == st[q] = "end" /\ c \in acq[q] /\ c \in WantsW(q) /\ writer[c] = WCommit
Call(p) == /\ st[p] = "idle" /\ rnd[p] <= Rounds
           /\ st' = [st EXCEPT ![p] = "start"]
           /\ todo' = [todo EXCEPT ![p] = <<LockOp(p, Head(Need(p)))>>]
           /\ closedBefore' = [closedBefore EXCEPT ![p] = {<<c, q, rnd[q]>> : <<c, q>> \in {x \in Wants(p) \X Procs : Closes(x[2], x[1])}}]
           /\ UNCHANGED <<readers, writer, ver, ty, rnd, acc, acq, rd, wr, zz>>

\* A resource has been locked: go on with the next one, or the transaction is active.
Got(p, c) == LET a == acq[p] \cup {c} IN
    /\ acq' = [acq EXCEPT ![p] = a]
    /\ IF a = Wants(p) THEN st' = [st EXCEPT ![p] = "act"] /\ todo' = [todo EXCEPT ![p] = << >>]
       ELSE LET nxt == Head(SelectSeq(After(Need(p), c), LAMBDA d : d \notin a)) IN
            st' = st /\ todo' = [todo EXCEPT ![p] = <<LockOp(p, nxt)>>]
    /\ UNCHANGED <<ver, ty, rnd, acc, closedBefore, rd, wr, zz>>

\* A resource could not be locked.  With nothing held: try again, or sleep; otherwise give everything back and wait for this one.
Failed(p, c, word, val, sleepable) ==
    IF acq[p] = {}
    THEN /\ \/ todo' = [todo EXCEPT ![p] = <<LockOp(p, c)>>]
            \/ sleepable /\ todo' = [todo EXCEPT ![p] = <<<<"wait", c, word, val>>, LockOp(p, c)>>]
         /\ UNCHANGED <<acq, st>>
    ELSE /\ todo' = [todo EXCEPT ![p] = Flat(Map(SelectSeq(After(Need(p), c), LAMBDA d : d \in acq[p]), LAMBDA d : Unlock(p, d))) \o <<LockOp(p, c)>>]
         /\ acq' = acq    \* until the unlocks are done
         /\ st' = st
\* A step that only leads to another attempt (and not to sleep)
Retry(p) == /\ todo[p] # << >> /\ todo'[p] # << >> /\ todo'[p] # todo[p] /\ acq'[p] = acq[p]
            /\ \/ Op(p) \in {"rl2", "rl3", "wl1", "wl2"} /\ Head(todo'[p])[1] \notin {"rl3", "wl2", "wait"}
               \/ Op(p) = "cl3" /\ Head(todo'[p])[1] = "cl2" /\ Len(todo'[p]) = Len(todo[p])

ReadLoad1(p) == Is(p, "rl1") /\ rd' = [rd EXCEPT ![p] = readers[At(p)]] /\ todo' = [todo EXCEPT ![p] = <<<<"rl2", At(p)>>>>]
                /\ Same /\ UNCHANGED <<readers, writer, acq, wr, zz>>
ReadLoad2(p) == /\ Is(p, "rl2") /\ wr' = [wr EXCEPT ![p] = writer[At(p)]]
                /\ IF rd[p] # Locked /\ writer[At(p)] # WCommit
                   THEN todo' = [todo EXCEPT ![p] = <<<<"rl3", At(p)>>>>] /\ UNCHANGED <<acq, st>>
                   ELSE IF writer[At(p)] = WCommit THEN Failed(p, At(p), "w", WCommit, TRUE) ELSE Failed(p, At(p), "r", Locked, TRUE)
                /\ UNCHANGED <<readers, writer, ver, ty, rnd, acc, closedBefore, rd, zz>>
ReadCas(p) == /\ Is(p, "rl3")
              /\ \/ /\ readers[At(p)] = rd[p] /\ readers' = [readers EXCEPT ![At(p)] = @ + 1] /\ writer' = writer /\ Got(p, At(p))
                 \/ \* the value has changed, or spurious
                    /\ Failed(p, At(p), "r", Locked, readers[At(p)] = Locked)
                    /\ UNCHANGED <<readers, writer, ver, ty, rnd, acc, closedBefore, rd, wr, zz>>
WriteLoad(p) == /\ Is(p, "wl1")
                /\ IF writer[At(p)] = Free THEN todo' = [todo EXCEPT ![p] = <<<<"wl2", At(p)>>>>] /\ UNCHANGED <<acq, st>>
                   ELSE Failed(p, At(p), "w", writer[At(p)], TRUE)
                /\ UNCHANGED <<readers, writer, ver, ty, rnd, acc, closedBefore, rd, wr, zz>>
WriteCas(p) == /\ Is(p, "wl2")
               /\ \/ /\ writer[At(p)] = Free /\ writer' = [writer EXCEPT ![At(p)] = WLocked] /\ readers' = readers /\ Got(p, At(p))
                  \/ /\ Failed(p, At(p), "w", writer[At(p)], writer[At(p)] # Free)
                     /\ UNCHANGED <<readers, writer, ver, ty, rnd, acc, closedBefore, rd, wr, zz>>

Word(w, c) == IF w = "r" THEN readers[c] ELSE writer[c]
Wait(p) == /\ Is(p, "wait")
           /\ LET o == Head(todo[p]) IN
              IF Word(o[3], o[2]) = o[4] THEN zz' = [zz EXCEPT ![p] = <<o[3], o[2], o[4]>>] /\ todo' = todo
              ELSE todo' = [todo EXCEPT ![p] = Rest(p)] /\ zz' = zz
           /\ Same /\ UNCHANGED <<readers, writer, acq, rd, wr>>
\* Whoever sleeps on the word checks it again
Wake(w, c) == zz' = [q \in Procs |-> IF zz[q] # << >> /\ zz[q][1] = w /\ zz[q][2] = c THEN << >> ELSE zz[q]]

Set(p, o, w, c, v) == /\ Is(p, o) /\ At(p) = c
                      /\ IF w = "r" THEN readers' = [readers EXCEPT ![c] = v] /\ writer' = writer
                                    ELSE writer' = [writer EXCEPT ![c] = v] /\ readers' = readers
                      /\ todo' = [todo EXCEPT ![p] = Rest(p)]
Gone(p, c) == acq' = [acq EXCEPT ![p] = @ \ {c}]
ReadUnlock(p) == \E c \in Res : Set(p, "ru1", "r", c, readers[c] - 1) /\ Gone(p, c) /\ Same /\ UNCHANGED <<rd, wr, zz>>
WriteUnlock(p) == \E c \in Res :
    \/ Set(p, "wu1", "r", c, IF readers[c] = Locked THEN Free ELSE readers[c]) /\ acq' = acq /\ Same /\ UNCHANGED <<rd, wr, zz>>
    \/ Set(p, "wu3", "w", c, Free) /\ Gone(p, c) /\ Same /\ UNCHANGED <<rd, wr, zz>>
CommitUnlk(p) == \E c \in Res :
    \/ Set(p, "cu1", "r", c, Free) /\ Same /\ UNCHANGED <<rd, wr, zz, acq>>
    \/ Set(p, "cu3", "w", c, WLocked) /\ Same /\ UNCHANGED <<rd, wr, zz, acq>>
Notify(p) == \E o \in {<<"ru2", "r">>, <<"wu2", "r">>, <<"wu4", "w">>, <<"cu2", "r">>, <<"cu4", "w">>} :
    /\ Is(p, o[1]) /\ Wake(o[2], At(p)) /\ todo' = [todo EXCEPT ![p] = Rest(p)]
    /\ Same /\ UNCHANGED <<readers, writer, acq, rd, wr>>
Commit1(p) == \E c \in Res : Set(p, "cl1", "w", c, WCommit) /\ Same /\ UNCHANGED <<rd, wr, zz, acq>>
Commit2(p) == /\ Is(p, "cl2")
              /\ IF readers[At(p)] = Free THEN todo' = [todo EXCEPT ![p] = <<<<"cl3", At(p)>>>> \o Rest(p)]
                 ELSE \/ todo' = todo
                      \/ todo' = [todo EXCEPT ![p] = <<<<"wait", At(p), "r", readers[At(p)]>>>> \o @]
              /\ Same /\ UNCHANGED <<readers, writer, acq, rd, wr, zz>>
Commit3(p) == /\ Is(p, "cl3")
              /\ \/ readers[At(p)] = Free /\ readers' = [readers EXCEPT ![At(p)] = Locked] /\ todo' = [todo EXCEPT ![p] = Rest(p)]
                 \/ todo' = [todo EXCEPT ![p] = <<<<"cl2", At(p)>>>> \o Rest(p)] /\ readers' = readers
              /\ Same /\ UNCHANGED <<writer, acq, rd, wr, zz>>
Swap(p) == /\ Is(p, "sw") /\ ver' = [ver EXCEPT ![At(p)] = @ \cup {<<p, rnd[p]>>}]
           /\ todo' = [todo EXCEPT ![p] = Rest(p)]
           /\ UNCHANGED <<readers, writer, ty, st, rnd, acc, acq, rd, wr, zz, closedBefore>>

Accesses(p) == LET w == WantsW(p) IN IF AccAll THEN {{}, w} ELSE {s \in SUBSET w : M \in s => s = w}
Drop(p) == /\ st[p] = "act"
           /\ \E a \in Accesses(p) : acc' = [acc EXCEPT ![p] = a] /\ todo' = [todo EXCEPT ![p] = Release(p, a)]
           /\ st' = [st EXCEPT ![p] = "end"]
           /\ UNCHANGED <<readers, writer, ver, ty, rnd, acq, rd, wr, zz, closedBefore>>
Done(p) == /\ st[p] = "end" /\ todo[p] = << >>
           /\ st' = [st EXCEPT ![p] = "idle"] /\ rnd' = [rnd EXCEPT ![p] = @ + 1] /\ acc' = [acc EXCEPT ![p] = {}]
           /\ IF rnd[p] < Rounds THEN \E x \in Types : ty' = [ty EXCEPT ![p] = x] ELSE ty' = ty
           \* nothing but the versions stays
           /\ rd' = [rd EXCEPT ![p] = Free] /\ wr' = [wr EXCEPT ![p] = Free] /\ closedBefore' = [closedBefore EXCEPT ![p] = {}]
           /\ UNCHANGED <<readers, writer, ver, acq, todo, zz>>

Inner(p) == \/ ReadLoad1(p) \/ ReadLoad2(p) \/ ReadCas(p) \/ WriteLoad(p) \/ WriteCas(p) \/ Wait(p)
            \/ ReadUnlock(p) \/ WriteUnlock(p) \/ CommitUnlk(p) \/ Notify(p) \/ Commit1(p) \/ Commit2(p) \/ Commit3(p) \/ Swap(p) \/ Done(p)
Next == \E p \in Procs : Call(p) \/ Inner(p) \/ Drop(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Call(p) \/ Inner(p) \/ Drop(p))

-------------------------------------------------------------------------------
Active(p) == st[p] = "act"
AllDone == \A p \in Procs : st[p] = "idle" /\ rnd[p] > Rounds

\* The words mean what they should.
Words == \A c \in Res :
    /\ readers[c] = Locked \/ readers[c] = Cardinality({p \in Procs : c \in acq[p] /\ c \in WantsR(p)})
    /\ Cardinality({p \in Procs : c \in acq[p] /\ c \in WantsW(p)}) = (IF writer[c] = Free THEN 0 ELSE 1)
\* C03
Exclusion == \A p, q \in Procs : p # q /\ Active(p) /\ Active(q) => WantsW(p) \cap WantsW(q) = {}
\* C01: an active transaction sees all of a commit or nothing of it
AllOrNone == \A p \in Procs : Active(p) => \A c, d \in Wants(p) : \A q \in Procs \ {p} : \A k \in 1..Rounds :
    (<<q, k>> \in ver[c] /\ <<q, k>> \notin ver[d]) => ~(\* q accessed d in its transaction k, which is committing now
        rnd[q] = k /\ st[q] = "end" /\ d \in acc[q])
\* C01: what an active transaction reads does not change
Frozen == [][\A p \in Procs : Active(p) /\ Active(p)' => \A c \in Wants(p) : ver[c] = ver'[c]]_vars
\* A commit has its resource for itself.
Alone == \A p \in Procs : (Is(p, "sw") => \A q \in Procs \ {p} : At(p) \notin acq[q])
\* C02: a transaction that is over has committed what it accessed.
Committed == [][\A p \in Procs : rnd'[p] > rnd[p] => \A c \in acc[p] : <<p, rnd[p]>> \in ver'[c]]_vars
\* C07: a start that waits holds nothing.
WaitsEmpty == \A p \in Procs : st[p] = "start" /\ todo[p] # << >> /\ Op(p) = "wait" => acq[p] = {}
\* C06: a commit that had closed a resource before a start was called is over before the start gets the resource.
NoBarging == [][\A p \in Procs : \A b \in closedBefore[p] :
                    b[1] \in WantsR(p) /\ b[1] \in acq'[p] /\ b[1] \notin acq[p] => ~(Closes(b[2], b[1]) /\ rnd[b[2]] = b[3])]_vars

\* What TecsWait.tla says about a state in which nothing moves but by a command
W == INSTANCE TecsWait WITH tx <- [p \in {p \in Procs : st[p] # "idle"} |->
        [th |-> p, i |-> 0, r |-> ty[p].r, w |-> ty[p].w, ar |-> ty[p].ar, acc |-> acc[p],
         st |-> IF st[p] = "start" THEN "req" ELSE st[p],
         \* what the commit has, and what it waits for
         got |-> {c \in acc[p] : writer[c] = WCommit /\ readers[c] = Locked},
         cur |-> IF \E c \in acc[p] : writer[c] = WCommit /\ readers[c] # Locked
                 THEN CHOOSE c \in acc[p] : writer[c] = WCommit /\ readers[c] # Locked ELSE "-"]]
Still == \A p \in Procs : st[p] \in {"start", "end"} => zz[p] # << >>
\* C04, C05: whoever sleeps has a reason, and somebody can go on.
Reasons == Still => W!Justified /\ W!NoDeadlock /\ \A p \in Procs : st[p] = "start" => W!StartBlocks(p) # {}

\* C05: the only way not to return is to try again and again for ever (two starts may back off from each other without end, if the
\* scheduler always lets both fail).
Returns == (<>[][\A p \in Procs : ~Retry(p)]_vars) => <>AllDone
===============================================================================
