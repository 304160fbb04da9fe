---------------------------------- MODULE MCTecs ----------------------------------
(***************************************************************************)
(* Tecs for TLC: a bounded set of threads, transactions, entities and      *)
(* values.  Checked exhaustively for the invariants of Tecs and for the    *)
(* temporal-logic forms of the properties below, and simulated to generate *)
(* programs that are replayed into the real code (Record = TRUE).          *)
(***************************************************************************)
EXTENDS Tecs, Json

CONSTANTS Threads,      \* set of thread numbers
          TypeNames,    \* lock types that are started
          Vals,         \* values written
          MaxTx, MaxEnts, MaxOps, MaxLocks, NInst,
          Ops,          \* operation kinds explored
          Record        \* keep the program text

Perm(r, w, ar) == [r |-> r, w |-> w, ar |-> ar]
All == AllComps
TypeTab ==
    [AR |-> Perm(All, All, TRUE), WA |-> Perm(All, All, FALSE), RA |-> Perm(All, {}, FALSE), N |-> Perm({}, {}, FALSE),
     rA |-> Perm({"A"}, {}, FALSE), wA |-> Perm({"A"}, {"A"}, FALSE), rB |-> Perm({"B"}, {}, FALSE),
     wB |-> Perm({"B"}, {"B"}, FALSE), rAB |-> Perm({"A", "B"}, {}, FALSE), wArB |-> Perm({"A", "B"}, {"A"}, FALSE),
     rAwB |-> Perm({"A", "B"}, {"B"}, FALSE), wAB |-> Perm({"A", "B"}, {"A", "B"}, FALSE), rC |-> Perm({"C"}, {}, FALSE),
     wC |-> Perm({"C"}, {"C"}, FALSE), rG |-> Perm({"G"}, {}, FALSE), wG |-> Perm({"G"}, {"G"}, FALSE),
     wAGrC |-> Perm({"A", "C", "G"}, {"A", "G"}, FALSE), rAGH |-> Perm({"A", "G", "H"}, {}, FALSE),
     wBCH |-> Perm({"B", "C", "H"}, {"B", "C", "H"}, FALSE), rAll |-> Perm(All, {}, FALSE),
     wABCra |-> Perm(All, {"A", "B", "C"}, FALSE)]

VARIABLES hist,   \* program text, as a sequence of lines
          nops,   \* operations of the running transactions so far
          ntx     \* transactions started
mvars == <<vars, hist, nops, ntx>>

S(x) == ToString(x)
Line(t, s) == hist' = IF Record THEN Append(hist, S(t) \o " " \o s) ELSE hist
Th(n) == tx[lk[n].x].th
Keep == UNCHANGED <<ntx>>
Handle(j) == "h" \o S(j)
HandleSet == {Handle(j) : j \in 1..MaxEnts}
LockName(j) == "L" \o S(j)
FreshLock == LockName(ntx * 10 + Cardinality(DOMAIN lk))

MInit ==
    /\ ins = [i \in 0..NInst - 1 |-> NewInstance(i + 1)]
    /\ tx = Empty /\ lk = Empty /\ used = {} /\ vw = Empty /\ ob = Empty /\ ids = {} /\ maxid = 0
    /\ hist = << >> /\ nops = 0 /\ ntx = 0

ThreadBusy(t) == \E x \in DOMAIN tx : tx[x].th = t /\ tx[x].st \in {"req", "begun", "end", "done"}
Start(t, ty, i) ==
    /\ ntx < MaxTx /\ ~ThreadBusy(t)
    /\ Record /\ ntx = 0 => ty = "AR"        \* generated programs begin with some content
    /\ ~ \E x \in DOMAIN tx : tx[x].th = t /\ tx[x].i = i        \* nesting is a topic of its own
    /\ LET P == TypeTab[ty] IN StartCall(t, LockName((ntx + 1) * 10), ntx + 1, i, P.r, P.w, P.ar, Nest(t, i))
    /\ Line(t, "start " \o LockName((ntx + 1) * 10) \o " " \o ty \o " " \o S(i))
    /\ ntx' = ntx + 1 /\ UNCHANGED nops
MBegin(x) == Begin(x) /\ UNCHANGED <<hist, nops, ntx>>
MStartOk(x) == StartOk(x, maxid + 1) /\ UNCHANGED <<hist, nops, ntx>>
MDrop(n) == DropCall(n) /\ Line(Th(n), "drop " \o n) /\ UNCHANGED <<nops, ntx>>
MCommit(x) == Commit(x) /\ nops' = 0 /\ UNCHANGED <<hist, ntx>>
MDropRet(x) == tx[x].st = "done" /\ DropRet(x, tx[x].n) /\ UNCHANGED <<hist, nops, ntx>>

\* Only the lock's own thread uses it, and only when it is not inside a call.
May(n) == Usable(n) /\ ~ThreadBusy(Th(n)) /\ nops < MaxOps
Outs == {OutV(FALSE, 0)} \cup {OutV(TRUE, v) : v \in Vals \cup {Default[c] : c \in AllComps}}
Known == IF used = {} THEN {NullH} ELSE used \cup IF Record /\ nops % 4 # 0 THEN {} ELSE {NullH}
Do(n, kind, txt) == /\ kind \in Ops /\ May(n)
                    /\ (Record /\ lk[n].ar /\ Cardinality(used) < 2 => kind \in {"new", "set"})
                    /\ (Record /\ Cardinality(used) < 2 => lk[n].ar) /\ nops' = nops + 1 /\ Line(Th(n), kind \o " " \o n \o " " \o txt) /\ Keep

MNew(n) == /\ lk[n].ar /\ Cardinality(used) < MaxEnts
           /\ LET h == Handle(Cardinality(used) + 1) IN
              Do(n, "new", h) /\ NewOk(n, h, ins[tx[lk[n].x].i].id)
MEnt(n, h) ==
    \/ \E c \in lk[n].w \cap Comps, v \in Vals, out \in Outs :
          Do(n, "set", h \o " " \o c \o " " \o S(v)) /\ SetOp(n, h, c, v, out)
    \/ \E c \in lk[n].w \cap Comps, v \in Vals, out \in Outs :
          Do(n, "mod", h \o " " \o c \o " " \o S(v)) /\ Modify(n, h, c, v, out)
    \/ \E c \in lk[n].w \cap Comps, out \in Outs : Do(n, "getm", h \o " " \o c) /\ GetM(n, h, c, out)
    \/ \E c \in lk[n].r \cap Comps : Do(n, "get", h \o " " \o c) /\ Same
    \/ \E c \in lk[n].r \cap Comps : Do(n, "prev", h \o " " \o c) /\ Same
    \/ lk[n].ar /\ \E cs \in {<<"A">>, <<"B">>, <<"A", "B">>}, res \in {"ok", "throw"} :
          Do(n, "unset", h \o " " \o (IF Len(cs) = 2 THEN "AB" ELSE cs[1])) /\ Unset(n, h, Range(cs), res)
    \/ lk[n].ar /\ \E res \in {"ok", "throw"} : Do(n, "destroy", h) /\ Destroy(n, h, res)
MGlob(n) ==
    \/ \E c \in lk[n].w \cap Globs, v \in Vals, out \in Outs : Do(n, "gset", c \o " " \o S(v)) /\ GSet(n, c, v, out)
    \/ \E c \in lk[n].w \cap Globs, out \in Outs : Do(n, "ggetm", c) /\ GGetM(n, c, out)
    \/ \E c \in lk[n].r \cap Globs : Do(n, "gget", c) /\ Same
    \/ lk[n].ar /\ \E c \in Globs : Do(n, "gunset", c) /\ GUnset(n, {c}, "ok")
MLook(n) == (\E k \in {"full", "fullp"} : Do(n, k, "")) /\ Same
MDerive(n) ==
    /\ Cardinality(Locks(lk[n].x)) < MaxLocks /\ FreshLock \notin DOMAIN lk
    /\ \/ Do(n, "copy", FreshLock) /\ CopyLock(n, FreshLock)
       \/ Do(n, "ro", FreshLock) /\ ReadOnly(n, FreshLock, lk[n].r)
       \/ \E ty \in TypeNames : LET P == TypeTab[ty] IN
             Do(n, "sub", FreshLock \o " " \o ty) /\ Subset(n, FreshLock, P.r, P.w, P.ar)
\* Any order of the list's elements is possible; one is as good as another here.
SeqOf(X) == CHOOSE s \in [1..Cardinality(X) -> X] : Range(s) = X
MList(n) == \E k \in {"E"} \cup Comps, p \in BOOLEAN, v \in {"V1", "V2"} :
    /\ Do(n, "list", v \o " " \o k \o " " \o (IF p THEN "1" ELSE "0"))
    /\ TakeList(n, v, k, p, SeqOf(Members(IF LiveList(lk[n], p) THEN tx[lk[n].x].cur ELSE tx[lk[n].x].snap, k)))
MView(n) == \E v \in DOMAIN vw : vw[v].x = lk[n].x /\ Do(n, "view", v) /\ Same
MObs(n) ==
    \/ lk[n].ar /\ \E k \in Kinds : LET o == "O" \o S(Cardinality(DOMAIN ob)) IN
          Cardinality(DOMAIN ob) < 3 /\ Do(n, "watch", o \o " " \o k) /\ Watch(n, o, k)
    \/ lk[n].ar /\ \E o \in DOMAIN ob : ob[o].i = tx[lk[n].x].i /\ Do(n, "stopw", o) /\ StopWatch(n, o)
    \/ \E o \in DOMAIN ob :
          /\ ob[o].i = tx[lk[n].x].i
          /\ \/ Do(n, "poll", o) /\ PollNone(n, o)
             \/ ob[o].on /\ Visible(n, o) /\ \E e \in Range(Batches(o)[ob[o].b].seq) \cup Batches(o)[ob[o].b].rest :
                   Do(n, "poll", o) /\ PollEvent(n, o, e)
Op == \E n \in DOMAIN lk :
        \/ MNew(n) \/ (\E h \in Known : MEnt(n, h)) \/ MGlob(n) \/ MLook(n) \/ MDerive(n) \/ MList(n) \/ MView(n) \/ MObs(n)

MNext ==
    \/ \E t \in Threads, ty \in TypeNames, i \in DOMAIN ins : Start(t, ty, i)
    \/ \E x \in DOMAIN tx : MBegin(x) \/ MStartOk(x) \/ MCommit(x) \/ MDropRet(x)
    \/ \E n \in DOMAIN lk : Usable(n) /\ ~ThreadBusy(Th(n)) /\ (Record /\ lk[n].ar => nops >= 4) /\ MDrop(n)
    \/ Op

MSpec == MInit /\ [][MNext]_mvars

Done == ntx = MaxTx /\ DOMAIN tx = {}
\* Every finished behaviour is printed as a program.
Emit == Done /\ Record => PrintT("PROGRAM " \o ToJson(hist))

-------------------------------------------------------------------------------
(* The listed properties, as formulas over this specification *)

\* C01: the start state of a running transaction never changes
SnapshotStable == [][\A x \in DOMAIN tx \cap DOMAIN tx' :
    tx[x].st \in Running /\ tx'[x].st \in Running => tx'[x].snap = tx[x].snap]_vars
\* C01/C14: it is a committed state: the committed store changes only by a commit
CommitOnly == [][\A i \in DOMAIN ins : ins'[i].com # ins[i].com =>
    \E x \in DOMAIN tx : tx[x].i = i /\ tx[x].st = "end" /\ tx'[x].st = "done"]_vars
\* C02/C14: a commit puts every change of the transaction into the committed state, and nothing else
At(f, h) == {f[k] : k \in {h} \cap DOMAIN f}
CommitsAll == [][\A x \in DOMAIN tx \cap DOMAIN tx' : tx[x].st = "end" /\ tx'[x].st = "done" =>
    LET new == ins'[tx[x].i].com
        old == ins[tx[x].i].com
        T == tx[x] IN
    /\ \A c \in Comps, h \in used : At(new.comp[c], h) = IF At(T.cur.comp[c], h) # At(T.snap.comp[c], h)
                                                         THEN At(T.cur.comp[c], h) ELSE At(old.comp[c], h)
    /\ \A g \in Globs : At(new.glob, g) = IF At(T.cur.glob, g) # At(T.snap.glob, g) THEN At(T.cur.glob, g) ELSE At(old.glob, g)
    /\ \A h \in used : h \in new.ents <=> IF (h \in T.cur.ents) # (h \in T.snap.ents) THEN h \in T.cur.ents ELSE h \in old.ents]_vars
\* C09: a handle that once stopped existing never exists again
NoResurrection == [][\A i \in DOMAIN ins : ins'[i].com.ents \cap (used \ ins[i].com.ents) \subseteq
    UNION {tx[x].cur.ents : x \in {x \in DOMAIN tx : tx[x].i = i /\ tx[x].ar}}]_vars
\* C13: an operation changes at most one entity; C10: and never the start state
OneEntity == [][\A x \in DOMAIN tx \cap DOMAIN tx' : tx[x].st = "act" /\ tx'[x].st = "act" =>
    \E h \in used' \cup {NullH} : \A c \in Comps, g \in used \ {h} :
        (g \in DOMAIN tx[x].cur.comp[c]) = (g \in DOMAIN tx'[x].cur.comp[c]) /\
        (g \in DOMAIN tx[x].cur.comp[c] => tx[x].cur.comp[c][g] = tx'[x].cur.comp[c][g])]_vars
\* C12: while a view is not taken anew, its entries only ever become null
ViewStable == [][\A v \in DOMAIN vw \cap DOMAIN vw' :
    \/ DOMAIN vw[v].s = DOMAIN vw'[v].s /\ \A j \in DOMAIN vw[v].s : vw'[v].s[j] \in {vw[v].s[j], NullH}
    \/ tx' = tx]_vars
\* C17: a stopped observer stays stopped, and positions only move forward
ObsForward == [][\A o \in DOMAIN ob : /\ (~ob[o].on => ~ob'[o].on)
                                       /\ (ob'[o].b > ob[o].b \/ (ob'[o].b = ob[o].b /\ ob'[o].n >= ob[o].n))]_vars
StoresOK == /\ \A i \in DOMAIN ins : TypeOKStore(ins[i].com)
            /\ \A x \in DOMAIN tx : TypeOKStore(tx[x].snap) /\ TypeOKStore(tx[x].cur)
\* C10/C01: transactions without AddRemove cannot change what exists
PresenceStable == \A x \in DOMAIN tx : tx[x].st \in Running /\ ~tx[x].ar =>
    tx[x].cur.ents = tx[x].snap.ents /\ \A c \in Comps : DOMAIN tx[x].cur.comp[c] = DOMAIN tx[x].snap.comp[c]
===============================================================================
