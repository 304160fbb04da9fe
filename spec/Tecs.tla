---------------------------------- MODULE Tecs ----------------------------------
(***************************************************************************)
(* Transactions over Tecs instances: the behaviour a user can rely on.     *)
(*                                                                         *)
(* An instance has a committed store.  Starting a transaction (StartCall   *)
(* .. StartOk) contains one internal step Begin that takes the committed   *)
(* store as the transaction's start state; releasing its last lock         *)
(* (DropCall .. DropRet) contains one internal step Commit that installs   *)
(* the current state.  Everything in between works on the transaction's    *)
(* own start state (snap) and current state (cur).                         *)
(*                                                                         *)
(* TraceTecs.tla replays recorded executions of the real code through      *)
(* these actions; MCTecs.tla explores them for small constants, checks the *)
(* invariants, and emits behaviours to replay into the code.               *)
(***************************************************************************)
EXTENDS TecsStore

CONSTANTS NullH,        \* the null handle
          MaxActive     \* how many transactions a thread can have at a time (on different instances)

VARIABLES
    ins,    \* instance number -> [id, com, nb, ev]
    tx,     \* transaction number -> record, see StartCall
    lk,     \* lock name -> [x, r, w, ar, live, dyn]
    used,   \* all entity handles ever returned by NewEntity
    vw,     \* view name -> [x, k, live, s]
    ob,     \* observer name -> [i, k, on, b, n]
    ids,    \* transaction ids of this program
    maxid   \* greatest transaction id returned so far
vars == <<ins, tx, lk, used, vw, ob, ids, maxid>>
data == <<ins, used, vw, ob>>

-------------------------------------------------------------------------------
NewInstance(id) == [id |-> id, com |-> EmptyStore,
                    nb |-> 0,                          \* number of commits so far
                    ev |-> [k \in Kinds |-> << >>]]    \* per kind: the batches of events [n, seq, rest]

NoRem == [k \in {"E"} \cup Comps |-> 0]

\* ---- views of a lock -------------------------------------------------------
\* Locks derived from the transaction's own lock are live: they show its changes (as far as it has
\* write permission).  A read-only subset, and everything derived from it, shows the start state.
Meta(L) == LET T == tx[L.x] IN IF L.live /\ T.ar THEN T.cur ELSE T.snap
Val(L, c) == LET T == tx[L.x] IN IF L.live /\ c \in T.w THEN T.cur ELSE T.snap
Prev(L) == tx[L.x].snap

Locks(x) == {n \in DOMAIN lk : lk[n].x = x}
\* Only locks of running transactions can be used.
Usable(n) == n \in DOMAIN lk /\ tx[lk[n].x].st = "act"
Running == {"begun", "act", "end"}

\* ---- starting --------------------------------------------------------------
\* Is a start by thread t on instance i nested?  The thread has a transaction from a successful start to the end of the
\* transaction; while another thread is ending it, both answers are right.
Nest(t, i) ==
       LET all == {y \in DOMAIN tx : tx[y].th = t /\ tx[y].st \in {"act", "end"}}
           mine == {y \in all : tx[y].i = i}
           Active(S) == {y \in S : tx[y].st = "act"} IN
       IF Active(mine) # {} \/ Cardinality(Active(all)) >= MaxActive THEN "yes"
       ELSE IF mine # {} \/ Cardinality(all) >= MaxActive THEN "maybe" ELSE "no"
StartCall(t, n, x, i, r, w, ar, nest) ==
    /\ x \notin DOMAIN tx /\ i \in DOMAIN ins /\ n \notin DOMAIN lk
    /\ tx' = Put(tx, x, [i |-> i, th |-> t, n |-> n, r |-> r, w |-> w, ar |-> ar, st |-> "req",
                         snap |-> EmptyStore, cur |-> EmptyStore, nb |-> 0, lo |-> maxid, rem |-> NoRem, id |-> 0,
                         nest |-> nest])
    /\ UNCHANGED <<data, lk, ids, maxid>>

\* Write permission for a component is exclusive; AddRemove excludes all write permissions.  A transaction that is
\* being ended only counts with what it really changed: it may give up the rest before its commit.
Changed(T) == {c \in T.w : IF c \in Comps THEN T.cur.comp[c] # T.snap.comp[c]
                           ELSE {<<g, T.cur.glob[g]>> : g \in {c} \cap DOMAIN T.cur.glob} #
                                {<<g, T.snap.glob[g]>> : g \in {c} \cap DOMAIN T.snap.glob}}
ChangedMeta(T) == T.ar /\ \/ T.cur.ents # T.snap.ents
                          \/ DOMAIN T.cur.glob # DOMAIN T.snap.glob
                          \/ \E c \in Comps : DOMAIN T.cur.comp[c] # DOMAIN T.snap.comp[c]
HeldW(x) == IF tx[x].st = "end" THEN Changed(tx[x]) ELSE tx[x].w
HeldAR(x) == IF tx[x].st = "end" THEN ChangedMeta(tx[x]) ELSE tx[x].ar
\* y prevents x from running (or from starting)
Conflict(x, y) == /\ tx[x].i = tx[y].i
                  /\ \/ HeldW(x) \cap HeldW(y) # {}
                     \/ HeldAR(x) /\ HeldAR(y)
                     \/ /\ tx[x].st # "end" /\ tx[y].st # "end"
                        /\ (tx[x].ar /\ tx[y].w # {}) \/ (tx[y].ar /\ tx[x].w # {})

Begin(x) ==
    /\ tx[x].st = "req" /\ tx[x].nest # "yes"
    /\ \A y \in DOMAIN tx \ {x} : tx[y].st \in Running => ~Conflict(x, y)
    /\ LET s == ins[tx[x].i].com IN
       tx' = [tx EXCEPT ![x].st = "begun", ![x].snap = s, ![x].cur = s, ![x].nb = ins[tx[x].i].nb]
    /\ UNCHANGED <<data, lk, ids, maxid>>

Lock(x, r, w, ar, live) == [x |-> x, r |-> r, w |-> w, ar |-> ar, live |-> live,
                            dyn |-> FALSE, dr |-> {}, dw |-> {}, da |-> FALSE]

StartOk(x, id) ==
    /\ tx[x].st = "begun"
    /\ id > tx[x].lo /\ id \notin ids         \* ids are unique and increase
    /\ tx' = [tx EXCEPT ![x].st = "act", ![x].id = id]
    /\ lk' = Put(lk, tx[x].n, Lock(x, tx[x].r, tx[x].w, tx[x].ar, TRUE))
    /\ ids' = ids \cup {id}
    /\ maxid' = IF id > maxid THEN id ELSE maxid
    /\ UNCHANGED data

\* A nested start is rejected and leaves everything as it was.
StartRejected(x) ==
    /\ tx[x].st = "req" /\ tx[x].nest # "no"
    /\ tx' = Remove(tx, {x})
    /\ UNCHANGED <<data, lk, ids, maxid>>

\* ---- locks of a transaction ------------------------------------------------
Derive(n, m, L) ==
    /\ Usable(n) /\ m \notin DOMAIN lk
    /\ lk' = Put(lk, m, L)
    /\ UNCHANGED <<data, tx, ids, maxid>>

CopyLock(n, m) == Derive(n, m, lk[n])
Covers(L, r, w, ar) == r \subseteq L.r /\ w \subseteq L.w /\ (ar => L.ar)
Subset(n, m, r, w, ar) == Covers(lk[n], r, w, ar) /\ Derive(n, m, Lock(lk[n].x, r, w, ar, lk[n].live))
ReadOnly(n, m, r) == r = lk[n].r /\ Derive(n, m, Lock(lk[n].x, r, {}, FALSE, FALSE))
\* A dynamic lock remembers the permissions of the lock it was made from.
Dynamic(n, m, r, w, ar) ==
    /\ Covers(lk[n], r, w, ar)
    /\ Derive(n, m, [Lock(lk[n].x, r, w, ar, lk[n].live)
                     EXCEPT !.dyn = TRUE, !.dr = lk[n].r, !.dw = lk[n].w, !.da = lk[n].ar])
\* TryLock must succeed for what the source lock had, and must not give more than the transaction
\* holds and has not given up.
TryMust(L, r, w, ar) == r \subseteq L.dr /\ w \subseteq L.dw /\ (ar => L.da)
TryMay(L, r, w, ar) == LET T == tx[L.x] IN
    r \subseteq T.r /\ (w # {} => L.live /\ w \subseteq T.w) /\ (ar => L.live /\ T.ar)
TryOk(n, m, r, w, ar) == lk[n].dyn /\ TryMay(lk[n], r, w, ar) /\ Derive(n, m, Lock(lk[n].x, r, w, ar, lk[n].live))
TryFail(n, r, w, ar) == Usable(n) /\ lk[n].dyn /\ ~TryMust(lk[n], r, w, ar) /\ UNCHANGED vars

\* ---- ending ----------------------------------------------------------------
\* The transaction ends with its last lock; until then it is active.
DropCall(n) ==
    /\ Usable(n)
    /\ LET x == lk[n].x IN
       /\ lk' = Remove(lk, {n})
       /\ tx' = IF Locks(x) = {n} THEN [tx EXCEPT ![x].st = "end", ![x].n = n] ELSE tx
       /\ vw' = IF Locks(x) = {n} THEN Remove(vw, {v \in DOMAIN vw : vw[v].x = x}) ELSE vw
    /\ UNCHANGED <<ins, used, ob, ids, maxid>>

Commit(x) ==
    /\ tx[x].st = "end"
    /\ LET T == tx[x]
           I == ins[T.i]
           new == Install(I.com, T.cur, Changed(T), ChangedMeta(T))
           Batch(k) == NetEvents(I.com, new, k, NullH) IN
       ins' = [ins EXCEPT ![T.i] = [@ EXCEPT
                  !.com = new,
                  !.nb = @ + 1,
                  !.ev = [k \in Kinds |-> IF Batch(k) = {} THEN @[k]
                                          ELSE Append(@[k], [n |-> I.nb + 1, seq |-> << >>, rest |-> Batch(k)])]]]
    /\ tx' = [tx EXCEPT ![x].st = "done", ![x].snap = EmptyStore, ![x].cur = EmptyStore]
    /\ UNCHANGED <<lk, used, vw, ob, ids, maxid>>

\* The release of a lock returns; that of the last one after the commit.
DropRet(x, n) ==
    /\ LET last == x \in DOMAIN tx /\ tx[x].n = n /\ tx[x].st \in {"end", "done"} IN
       /\ last => tx[x].st = "done"
       /\ tx' = IF last THEN Remove(tx, {x}) ELSE tx
    /\ UNCHANGED <<data, lk, ids, maxid>>

\* An instance may end when no transaction on it is left.  Its identifier stays taken: handles of it may still be around,
\* and have to be foreign to every instance created later.
EndInstance(i) == i \in DOMAIN ins /\ (\A x \in DOMAIN tx : tx[x].i # i) /\ UNCHANGED vars

\* ---- operations ------------------------------------------------------------
\* Replace the current state of the transaction of lock n.  `gone' is the set of <<kind, handle>>
\* that left a list: their entries in views of the live lists become null.
Update(n, s, gone) ==
    LET x == lk[n].x IN
    /\ tx' = [tx EXCEPT ![x].cur = s,
                        ![x].rem = [k \in DOMAIN @ |-> @[k] + Cardinality({g \in gone : g[1] = k})]]
    /\ vw' = IF gone = {} THEN vw
             ELSE [v \in DOMAIN vw |->
                     IF vw[v].x = x /\ vw[v].live
                     THEN [vw[v] EXCEPT !.s = [j \in DOMAIN @ |-> IF <<vw[v].k, @[j]>> \in gone THEN NullH ELSE @[j]]]
                     ELSE vw[v]]
    /\ UNCHANGED <<ins, lk, used, ob, ids, maxid>>
Same == UNCHANGED vars

\* NewEntity returns a fresh handle of this instance.
NewOk(n, h, hid) ==
    /\ Usable(n) /\ lk[n].ar
    /\ h # NullH /\ h \notin used /\ hid = ins[tx[lk[n].x].i].id
    /\ used' = used \cup {h}
    /\ tx' = [tx EXCEPT ![lk[n].x].cur = Create(@, h)]
    /\ UNCHANGED <<ins, lk, vw, ob, ids, maxid>>

\* Outcome of an operation: "ok" or "throw", and the value or truth value it yields.
OutV(ok, v) == [res |-> IF ok THEN "ok" ELSE "throw", v |-> IF ok THEN v ELSE 0]

Cur(n) == tx[lk[n].x].cur
HasC(s, h, c) == h \in s.ents /\ h \in DOMAIN s.comp[c]

GetOut(n, h, c) ==
    LET L == lk[n] IN IF HasC(Meta(L), h, c) THEN OutV(TRUE, Val(L, c).comp[c][h]) ELSE OutV(FALSE, 0)
PrevOut(n, h, c) ==
    LET s == Prev(lk[n]) IN IF HasC(s, h, c) THEN OutV(TRUE, s.comp[c][h]) ELSE OutV(FALSE, 0)
GGetOut(n, c) ==
    LET L == lk[n] IN IF c \in DOMAIN Meta(L).glob THEN OutV(TRUE, Val(L, c).glob[c]) ELSE OutV(FALSE, 0)
GPrevOut(n, c) ==
    LET s == Prev(lk[n]) IN IF c \in DOMAIN s.glob THEN OutV(TRUE, s.glob[c]) ELSE OutV(FALSE, 0)

\* Non-const Get: with AddRemove it adds a missing component with its default value.
CanAccess(n, h, c) == h \in Meta(lk[n]).ents /\ (lk[n].ar \/ HasC(Meta(lk[n]), h, c))
GetM(n, h, c, out) ==
    IF CanAccess(n, h, c)
    THEN IF HasC(Meta(lk[n]), h, c) THEN out = GetOut(n, h, c) /\ Same
         ELSE out = OutV(TRUE, Default[c]) /\ Update(n, SetComp(Cur(n), h, c, Default[c]), {})
    ELSE out = OutV(FALSE, 0) /\ Same
\* Get a reference and assign v through it; yields the value before.
Modify(n, h, c, v, out) ==
    IF CanAccess(n, h, c)
    THEN /\ out = IF HasC(Meta(lk[n]), h, c) THEN GetOut(n, h, c) ELSE OutV(TRUE, Default[c])
         /\ Update(n, SetComp(Cur(n), h, c, v), {})
    ELSE out = OutV(FALSE, 0) /\ Same
SetOp(n, h, c, v, out) ==
    IF CanAccess(n, h, c)
    THEN out = OutV(TRUE, v) /\ Update(n, SetComp(Cur(n), h, c, v), {})
    ELSE out = OutV(FALSE, 0) /\ Same
Unset(n, h, cs, res) ==
    IF h \in Cur(n).ents
    THEN res = "ok" /\ Update(n, UnsetComps(Cur(n), h, cs), {<<c, h>> : c \in {c \in cs : h \in DOMAIN Cur(n).comp[c]}})
    ELSE res = "throw" /\ Same
Destroy(n, h, res) ==
    IF h \in Cur(n).ents
    THEN res = "ok" /\ Update(n, DestroyEnt(Cur(n), h),
                              {<<"E", h>>} \cup {<<c, h>> : c \in {c \in Comps : h \in DOMAIN Cur(n).comp[c]}})
    ELSE res = "throw" /\ Same

GCan(n, c) == lk[n].ar \/ c \in DOMAIN Meta(lk[n]).glob
GGetM(n, c, out) ==
    IF GCan(n, c)
    THEN IF c \in DOMAIN Meta(lk[n]).glob THEN out = GGetOut(n, c) /\ Same
         ELSE out = OutV(TRUE, Default[c]) /\ Update(n, SetGlob(Cur(n), c, Default[c]), {})
    ELSE out = OutV(FALSE, 0) /\ Same
GModify(n, c, v, out) ==
    IF GCan(n, c)
    THEN /\ out = IF c \in DOMAIN Meta(lk[n]).glob THEN GGetOut(n, c) ELSE OutV(TRUE, Default[c])
         /\ Update(n, SetGlob(Cur(n), c, v), {})
    ELSE out = OutV(FALSE, 0) /\ Same
GSet(n, c, v, out) ==
    IF GCan(n, c) THEN out = OutV(TRUE, v) /\ Update(n, SetGlob(Cur(n), c, v), {})
    ELSE out = OutV(FALSE, 0) /\ Same
GUnset(n, cs, res) == res = "ok" /\ Update(n, UnsetGlobs(Cur(n), cs), {})

\* ---- references ------------------------------------------------------------
\* A reference that lock n yields denotes component c of h (of the instance: h = NullH) itself, in the state the lock shows;
\* not a copy of it, and not the place it happened to be in.
RefTo(n, h, c, prev) == [x |-> lk[n].x, h |-> h, c |-> c, snap |-> prev \/ ~lk[n].live \/ c \notin tx[lk[n].x].w]
\* It can be used while the transaction runs and the component is there.
RefState(r) == IF r.snap THEN tx[r.x].snap ELSE tx[r.x].cur
RefUsable(r) ==
    /\ r.x \in DOMAIN tx /\ tx[r.x].st = "act"
    /\ IF r.h = NullH THEN r.c \in DOMAIN RefState(r).glob ELSE HasC(RefState(r), r.h, r.c)
RefRead(r) == IF r.h = NullH THEN RefState(r).glob[r.c] ELSE RefState(r).comp[r.c][r.h]
RefWrite(r, v) ==
    /\ ~r.snap
    /\ tx' = [tx EXCEPT ![r.x].cur = IF r.h = NullH THEN SetGlob(@, r.c, v) ELSE SetComp(@, r.h, r.c, v)]
    /\ UNCHANGED <<ins, lk, used, vw, ob, ids, maxid>>

\* ---- entity lists ----------------------------------------------------------
Range(s) == {s[j] : j \in DOMAIN s}
\* s lists exactly the set S, each element once; at most `nulls' null entries in addition.
ListOf(s, S, nulls) ==
    LET full == {j \in DOMAIN s : s[j] # NullH} IN
    /\ {s[j] : j \in full} = S
    /\ Cardinality(full) = Cardinality(S)
    /\ Len(s) - Cardinality(full) <= nulls
LiveList(L, prev) == ~prev /\ L.live /\ tx[L.x].ar
ListOk(n, k, prev, s) ==
    LET L == lk[n] IN
    IF LiveList(L, prev) THEN ListOf(s, Members(tx[L.x].cur, k), tx[L.x].rem[k])
    ELSE ListOf(s, Members(tx[L.x].snap, k), 0)
TakeList(n, v, k, prev, s) ==
    /\ Usable(n) /\ ListOk(n, k, prev, s)
    /\ vw' = Put(vw, v, [x |-> lk[n].x, k |-> k, live |-> LiveList(lk[n], prev), s |-> s])
    /\ UNCHANGED <<ins, tx, lk, used, ob, ids, maxid>>

\* ---- observers -------------------------------------------------------------
Batches(o) == ins[ob[o].i].ev[ob[o].k]
Watch(n, o, k) ==
    /\ Usable(n) /\ lk[n].ar /\ (o \in DOMAIN ob => ob[o].k = "-")
    /\ LET i == tx[lk[n].x].i IN
       \* b: the batch it reads next, n: how much of it has been read
       ob' = Put(ob, o, [i |-> i, k |-> k, on |-> TRUE, b |-> Len(ins[i].ev[k]) + 1, n |-> 0])
    /\ UNCHANGED <<ins, tx, lk, used, vw, ids, maxid>>
StopWatch(n, o) ==
    /\ Usable(n) /\ lk[n].ar
    /\ ob' = IF o \in DOMAIN ob THEN [ob EXCEPT ![o].on = FALSE] ELSE ob
    /\ UNCHANGED <<ins, tx, lk, used, vw, ids, maxid>>
\* The current batch of observer o is visible to the transaction of lock n.
Visible(n, o) == /\ ob[o].b <= Len(Batches(o))
                 /\ Batches(o)[ob[o].b].n <= tx[lk[n].x].nb
PollNone(n, o) ==
    /\ Usable(n)
    /\ o \in DOMAIN ob /\ ob[o].on => ~Visible(n, o)
    /\ Same
\* The next event: already fixed by another observer, or any of the rest of the batch.
PollEvent(n, o, e) ==
    /\ Usable(n) /\ o \in DOMAIN ob /\ ob[o].on /\ Visible(n, o)
    /\ LET O == ob[o]
           i == O.i
           B == Batches(o)[O.b]
           fixed == O.n < Len(B.seq) IN
       /\ IF fixed THEN B.seq[O.n + 1] = e ELSE e \in B.rest
       /\ ins' = IF fixed THEN ins
                 ELSE [ins EXCEPT ![i].ev[O.k][O.b] = [@ EXCEPT !.seq = Append(@, e), !.rest = @ \ {e}]]
       /\ ob' = IF O.n + 1 = Len(B.seq) + Cardinality(B.rest)
                THEN [ob EXCEPT ![o].b = @ + 1, ![o].n = 0]
                ELSE [ob EXCEPT ![o].n = @ + 1]
    /\ UNCHANGED <<tx, lk, used, vw, ids, maxid>>

-------------------------------------------------------------------------------
(* Invariants, checked by TLC on MCTecs and on every validated trace state *)

TxOK(x) == tx[x].st \in Running => TypeOKStore(tx[x].snap) /\ TypeOKStore(tx[x].cur)
\* C03: conflicting transactions never run together
Exclusion == \A x, y \in DOMAIN tx : x # y /\ tx[x].st \in Running /\ tx[y].st \in Running => ~Conflict(x, y)
\* C03: a writer runs on the latest committed value of what it may write
Latest == \A x \in DOMAIN tx : tx[x].st \in Running =>
             LET com == ins[tx[x].i].com IN
             /\ \A c \in HeldW(x) \cap Comps : tx[x].snap.comp[c] = com.comp[c]
             /\ tx[x].ar /\ tx[x].st # "end" => tx[x].snap = com
\* C19: an active transaction has a lock, an ended one has none
LockRefs == \A x \in DOMAIN tx : (tx[x].st = "act") <=> (Locks(x) # {})
\* C20: no lock exceeds its transaction
LockPerms == \A n \in DOMAIN lk : LET L == lk[n] T == tx[L.x] IN
                /\ L.r \subseteq T.r /\ L.w \subseteq T.w /\ (L.ar => T.ar)
                /\ (~L.live => L.w = {} /\ ~L.ar)
\* C12: views contain only entities of their list, or null
ViewsOK == \A v \in DOMAIN vw : \A j \in DOMAIN vw[v].s :
              vw[v].s[j] # NullH /\ vw[v].live => vw[v].s[j] \in Members(tx[vw[v].x].cur, vw[v].k)
\* C09: only handles that were handed out exist
HandlesOK == \A i \in DOMAIN ins : ins[i].com.ents \subseteq used
===============================================================================
