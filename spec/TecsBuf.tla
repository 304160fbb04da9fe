--------------------------------- MODULE TecsBuf ---------------------------------
(***************************************************************************)
(* The storage of the implementation: two copies of everything, metadata   *)
(* with generations, entity lists with holes and the remembered place of   *)
(* each entity in them, the list of free slots, and the steps in which a   *)
(* commit rebuilds, swaps and copies them while other transactions start,  *)
(* read and end.                                                           *)
(*                                                                         *)
(* This is the design-level argument that the two copies implement the     *)
(* atomic store of TecsStore.tla (here: committed, snap, cur): the         *)
(* statements at the end say, at every step, that each active transaction  *)
(* sees its snapshot (C01, C10) also of what it has no permission for      *)
(* (C11), that a writer sees the latest committed state with its own       *)
(* changes (C03, C10, C13), that what is committed is what it saw (C14),   *)
(* that lists keep their places (C12), that the events are the net changes *)
(* (C16) and that no handle is given out twice (C09).  It does not judge   *)
(* the code: TraceTecs.tla does.                                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, SequencesExt, TLC

CONSTANTS Procs, Comps, Types,    \* Types: set of [r, w, ar], w a subset of r
          Vals, MaxSlots, MaxTx, MaxOps,
          Fine          \* TRUE: resources are taken one at a time

M == "M"
Res == {M} \cup Comps
Order == <<M>> \o SetToSeq(Comps)
Null == << >>
Default == 0
\* What an unused place of a storage holds is the default, as after a resize
NoMeta == [ex |-> FALSE, gen |-> 0, has |-> {}]

VARIABLES rm, wm,      \* metadata: sequences of [ex, gen, has], the two copies
          rv, wv,      \* component -> sequence of values
          re, we,      \* lists of all entities
          rl, wl,      \* component -> list of the entities with it
          place,       \* resource -> slot -> index in the write list
          free,        \* slots to be used next, with their generations
          shared, excl, writer,   \* resource -> readers, taken by a commit, 0 / 1 (writer) / 2 (committing)
          st, ty, held, acc, todo, nop,   \* of each process
          committed, snap, cur,   \* the abstract store, at the start and now of each process's transaction
          used, ntx, ev
vars == <<rm, wm, rv, wv, re, we, rl, wl, place, free, shared, excl, writer, st, ty, held, acc, todo, nop, committed, snap, cur, used, ntx, ev>>
data == <<rm, wm, rv, wv, re, we, rl, wl, place, free>>
locks == <<shared, excl, writer>>
procs == <<st, ty, held, acc, todo, nop>>

Slots == 1..MaxSlots
NoStore == [ents |-> {}, comp |-> [c \in Comps |-> << >>]]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == /\ rm = << >> /\ wm = << >> /\ rv = [c \in Comps |-> << >>] /\ wv = [c \in Comps |-> << >>]
        /\ re = << >> /\ we = << >> /\ rl = [c \in Comps |-> << >>] /\ wl = [c \in Comps |-> << >>]
        /\ place = [x \in Res |-> [s \in Slots |-> 0]] /\ free = << >>
        /\ shared = [x \in Res |-> 0] /\ excl = [x \in Res |-> FALSE] /\ writer = [x \in Res |-> 0]
        /\ st = [p \in Procs |-> "idle"] /\ ty = [p \in Procs |-> CHOOSE t \in Types : TRUE] /\ held = [p \in Procs |-> {}] /\ acc = [p \in Procs |-> {}]
        /\ todo = [p \in Procs |-> << >>] /\ nop = [p \in Procs |-> 0]
        /\ committed = NoStore /\ snap = [p \in Procs |-> NoStore] /\ cur = [p \in Procs |-> NoStore]
        /\ used = {} /\ ntx = 0 /\ ev = [p \in Procs |-> {}]

Wants(t) == {M} \cup t.r
WantsW(t) == t.w \cup (IF t.ar THEN {M} ELSE {})
Ready(x, w) == IF w THEN writer[x] = 0 ELSE ~excl[x] /\ writer[x] # 2
Taken(xs, t) == /\ shared' = [x \in Res |-> IF x \in xs \ WantsW(t) THEN shared[x] + 1 ELSE shared[x]]
                /\ writer' = [x \in Res |-> IF x \in xs \cap WantsW(t) THEN 1 ELSE writer[x]]
                /\ excl' = excl
Given(xs, t) == /\ shared' = [x \in Res |-> IF x \in xs \ WantsW(t) THEN shared[x] - 1 ELSE shared[x]]
                /\ writer' = [x \in Res |-> IF x \in xs \cap WantsW(t) THEN 0 ELSE writer[x]]
                /\ excl' = excl
\* The next resource after those held, cyclically from the one the process waited for
Missing(p) == SelectSeq(Order, LAMBDA x : x \in Wants(ty[p]) \ held[p])

Active(p) == /\ st' = [st EXCEPT ![p] = "act"]
             /\ snap' = [snap EXCEPT ![p] = committed] /\ cur' = [cur EXCEPT ![p] = committed]
Start(p, t) == /\ st[p] = "idle" /\ ntx < MaxTx
               /\ ntx' = ntx + 1 /\ ty' = [ty EXCEPT ![p] = t]
               /\ acc' = [acc EXCEPT ![p] = {}] /\ nop' = [nop EXCEPT ![p] = 0] /\ ev' = [ev EXCEPT ![p] = {}]
               /\ IF Fine
                  THEN st' = [st EXCEPT ![p] = "start"] /\ UNCHANGED <<locks, held, snap, cur>>
                  ELSE /\ \A x \in Wants(t) : Ready(x, x \in WantsW(t))
                       /\ Taken(Wants(t), t) /\ held' = [held EXCEPT ![p] = Wants(t)] /\ Active(p)
               /\ UNCHANGED <<data, todo, committed, used>>
Take(p) == /\ st[p] = "start"
           /\ LET x == Head(Missing(p)) IN
              IF Ready(x, x \in WantsW(ty[p]))
              THEN /\ Taken({x}, ty[p]) /\ held' = [held EXCEPT ![p] = @ \cup {x}]
                   /\ IF Len(Missing(p)) = 1 THEN Active(p) ELSE UNCHANGED <<st, snap, cur>>
              ELSE held[p] # {} /\ Given(held[p], ty[p]) /\ held' = [held EXCEPT ![p] = {}] /\ UNCHANGED <<st, snap, cur>>
           /\ UNCHANGED <<data, ty, acc, todo, nop, committed, used, ntx, ev>>

--------------------------------------------------------------------------------
\* Operations of a transaction on its entities (a handle is <<slot, generation>>)
Mark(p, xs) == acc' = [acc EXCEPT ![p] = @ \cup xs]
Op(p) == /\ st[p] = "act" /\ nop[p] < MaxOps /\ nop' = [nop EXCEPT ![p] = @ + 1]
         /\ UNCHANGED <<rm, rv, re, rl, locks, st, ty, held, todo, committed, snap, ntx, ev>>
New(p) == /\ st[p] = "act" /\ ty[p].ar /\ (free # << >> \/ Len(wm) < MaxSlots) /\ Op(p)
          /\ LET grow == free = << >>
                 h == IF grow THEN <<Len(wm) + 1, 1>> ELSE Head(free)
                 m0 == IF grow THEN Append(wm, NoMeta) ELSE wm
             IN /\ wm' = [m0 EXCEPT ![h[1]] = [@ EXCEPT !.ex = TRUE, !.gen = h[2]]]
                /\ wv' = IF grow THEN [c \in Comps |-> Append(wv[c], Default)] ELSE wv
                /\ free' = IF grow THEN free ELSE Tail(free)
                /\ we' = Append(we, h) /\ place' = [place EXCEPT ![M][h[1]] = Len(we) + 1]
                /\ cur' = [cur EXCEPT ![p].ents = @ \cup {h}]
                /\ used' = used \cup {h}
                /\ Assert(h \notin used, "a handle is given out twice")
                /\ Mark(p, {M} \cup IF grow THEN Comps ELSE {})
          /\ UNCHANGED <<wl>>
\* Set (v a value) or Get for writing (v = Default if it has to be added)
Write(p, h, c, v, set) ==
    /\ st[p] = "act" /\ c \in ty[p].w /\ h \in cur[p].ents /\ Op(p)
    /\ LET has == c \in (IF ty[p].ar THEN wm ELSE rm)[h[1]].has IN
       /\ (has \/ ty[p].ar) /\ (set \/ ~has)
       /\ IF has THEN wm' = wm /\ wl' = wl /\ place' = place /\ Mark(p, {c})
          ELSE /\ wm' = [wm EXCEPT ![h[1]].has = @ \cup {c}]
               /\ wl' = [wl EXCEPT ![c] = Append(@, h)] /\ place' = [place EXCEPT ![c][h[1]] = Len(wl[c]) + 1]
               /\ Mark(p, {M, c})
       /\ wv' = [wv EXCEPT ![c][h[1]] = v]
       /\ cur' = [cur EXCEPT ![p].comp[c] = Put(@, h, v)]
       /\ UNCHANGED <<we, free, used>>
RemoveAll(s, cs) == /\ wm' = [wm EXCEPT ![s].has = @ \ cs]
                    /\ wl' = [c \in Comps |-> IF c \in cs THEN [wl[c] EXCEPT ![place[c][s]] = Null] ELSE wl[c]]
                    /\ wv' = [c \in Comps |-> IF c \in cs THEN [wv[c] EXCEPT ![s] = Default] ELSE wv[c]]
Unset(p, h, c) ==
    /\ st[p] = "act" /\ ty[p].ar /\ h \in cur[p].ents /\ c \in wm[h[1]].has /\ Op(p)
    /\ RemoveAll(h[1], {c}) /\ Mark(p, {M, c})
    /\ cur' = [cur EXCEPT ![p].comp[c] = Drop(@, h)]
    /\ UNCHANGED <<we, place, free, used>>
Destroy(p, h) ==
    /\ st[p] = "act" /\ ty[p].ar /\ h \in cur[p].ents /\ Op(p)
    /\ LET cs == wm[h[1]].has IN
       /\ wm' = [wm EXCEPT ![h[1]].has = {}, ![h[1]].ex = FALSE]
       /\ wl' = [c \in Comps |-> IF c \in cs THEN [wl[c] EXCEPT ![place[c][h[1]]] = Null] ELSE wl[c]]
       /\ wv' = [c \in Comps |-> IF c \in cs THEN [wv[c] EXCEPT ![h[1]] = Default] ELSE wv[c]]
       /\ Mark(p, {M} \cup cs)
    /\ we' = [we EXCEPT ![place[M][h[1]]] = Null]
    /\ cur' = [cur EXCEPT ![p] = [ents |-> @.ents \ {h}, comp |-> [c \in Comps |-> Drop(@.comp[c], h)]]]
    /\ UNCHANGED <<place, free, used>>

--------------------------------------------------------------------------------
\* The end of a transaction, step by step
Steps(s, Sel(_), Mk(_)) == LET t == SelectSeq(s, Sel) IN [k \in 1..Len(t) |-> Mk(t[k])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
CompSeq == Tail(Order)
EndSteps(t, a) ==
    (IF M \in a THEN <<<<"rebuild">>>> ELSE << >>)
    \o Steps(CompSeq, LAMBDA c : c \in t.r \ a, LAMBDA c : <<"give", c>>)
    \o Flat(Steps(Order, LAMBDA x : x \in a, LAMBDA x : <<<<"close", x>>, <<"drain", x>>>>))
    \o (IF a # {} THEN <<<<"commit">>>> ELSE << >>)
    \o (IF M \in a THEN <<<<"open", M>>>> ELSE << >>)
    \o Flat(Steps(CompSeq, LAMBDA c : c \in a, LAMBDA c : <<<<"swap", c>>, <<"open", c>>>>))
    \o Flat(Steps(CompSeq, LAMBDA c : c \in a, LAMBDA c : <<<<"copy", c>>, <<"give", c>>>>))
    \o (IF M \in a THEN <<<<"copyM">>>> ELSE << >>) \o <<<<"give", M>>>>
End(p) == /\ st[p] = "act"
          /\ st' = [st EXCEPT ![p] = "end"] /\ todo' = [todo EXCEPT ![p] = EndSteps(ty[p], acc[p])]
          /\ UNCHANGED <<data, locks, ty, held, acc, nop, committed, snap, cur, used, ntx, ev>>

Handles(m, In(_)) == [k \in 1..Cardinality({s \in 1..Len(m) : In(m[s])}) |->
    LET s == CHOOSE s \in 1..Len(m) : In(m[s]) /\ Cardinality({z \in 1..s : In(m[z])}) = k IN <<s, m[s].gen>>]
Places(l) == [s \in Slots |-> IF \E k \in 1..Len(l) : l[k][1] = s THEN CHOOSE k \in 1..Len(l) : l[k][1] = s ELSE 0]
Old(s) == IF s <= Len(rm) THEN rm[s] ELSE NoMeta
\* Events as the implementation finds them: by comparing the two copies, slot by slot
Events ==
    UNION {LET o == Old(s)  n == wm[s] IN
           (IF o.ex # n.ex \/ o.gen # n.gen
            THEN (IF o.ex THEN {<<"E", "-", <<s, o.gen>>>>} ELSE {}) \cup (IF n.ex THEN {<<"E", "+", <<s, n.gen>>>>} ELSE {}) ELSE {})
           \cup UNION {IF (c \in o.has) # (c \in n.has) \/ o.gen # n.gen
                       THEN (IF c \in o.has THEN {<<c, "-", <<s, o.gen>>, rv[c][s]>>} ELSE {}) \cup (IF c \in n.has THEN {<<c, "+", <<s, n.gen>>, wv[c][s]>>} ELSE {})
                       ELSE {} : c \in Comps}
           : s \in 1..Len(wm)}
NetEvents(a, b) ==
    {<<"E", "-", h>> : h \in a.ents \ b.ents} \cup {<<"E", "+", h>> : h \in b.ents \ a.ents}
    \cup UNION {{<<c, "-", h, a.comp[c][h]>> : h \in DOMAIN a.comp[c] \ DOMAIN b.comp[c]}
                \cup {<<c, "+", h, b.comp[c][h]>> : h \in DOMAIN b.comp[c] \ DOMAIN a.comp[c]} : c \in Comps}

Rebuild(p) ==
    LET e == Handles(wm, LAMBDA m : m.ex)
        l == [c \in Comps |-> Handles(wm, LAMBDA m : m.ex /\ c \in m.has)]
        gone == Handles(wm, LAMBDA m : ~m.ex)
    IN /\ we' = e /\ wl' = l
       /\ place' = [x \in Res |-> Places(IF x = M THEN e ELSE l[x])]
       /\ free' = [k \in 1..Len(gone) |-> <<gone[k][1], gone[k][2] + 1>>]
       /\ ev' = [ev EXCEPT ![p] = Events]
       /\ UNCHANGED <<rm, wm, rv, wv, re, rl, locks, committed>>
\* Everything that it wrote is closed: the metadata and all entity lists are swapped while the metadata is
Commit(p) ==
    /\ committed' = [ents |-> cur[p].ents, comp |-> [c \in Comps |-> IF c \in acc[p] THEN cur[p].comp[c] ELSE committed.comp[c]]]
    /\ IF M \in acc[p]
       THEN /\ rm' = wm /\ wm' = rm /\ re' = we /\ we' = re
            /\ rl' = [c \in Comps |-> IF c \in acc[p] THEN wl[c] ELSE rl[c]] /\ wl' = [c \in Comps |-> IF c \in acc[p] THEN rl[c] ELSE wl[c]]
       ELSE UNCHANGED <<rm, wm, re, we, rl, wl>>
    /\ UNCHANGED <<rv, wv, place, free, locks, ev>>
Swap(c) == /\ rv' = [rv EXCEPT ![c] = wv[c]] /\ wv' = [wv EXCEPT ![c] = rv[c]]
           /\ UNCHANGED <<rm, wm, re, we, rl, wl, place, free, locks, committed, ev>>
\* Back to equal copies: everything, or (if the metadata did not change) only what is in the list
Copy(p, c) ==
    /\ \/ wv' = [wv EXCEPT ![c] = rv[c]]
       \/ M \notin acc[p] /\ wv' = [wv EXCEPT ![c] = [s \in 1..Len(wv[c]) |-> IF \E k \in 1..Len(rl[c]) : rl[c][k] # Null /\ rl[c][k][1] = s THEN rv[c][s] ELSE wv[c][s]]]
    /\ wl' = IF M \in acc[p] THEN [wl EXCEPT ![c] = rl[c]] ELSE wl
    /\ UNCHANGED <<rm, wm, rv, re, we, rl, place, free, locks, committed, ev>>
CopyM == /\ wm' = rm /\ we' = re /\ UNCHANGED <<rm, rv, wv, re, rl, wl, place, free, locks, committed, ev>>
Step(p) ==
    /\ st[p] = "end" /\ todo[p] # << >>
    /\ LET s == Head(todo[p]) IN
       /\ CASE s[1] = "rebuild" -> Rebuild(p)
            [] s[1] = "close" -> writer' = [writer EXCEPT ![s[2]] = 2] /\ UNCHANGED <<data, shared, excl, committed, ev>>
            [] s[1] = "drain" -> shared[s[2]] = 0 /\ excl' = [excl EXCEPT ![s[2]] = TRUE] /\ UNCHANGED <<data, shared, writer, committed, ev>>
            [] s[1] = "commit" -> Commit(p)
            [] s[1] = "open" -> excl' = [excl EXCEPT ![s[2]] = FALSE] /\ writer' = [writer EXCEPT ![s[2]] = 1] /\ UNCHANGED <<data, shared, committed, ev>>
            [] s[1] = "swap" -> Swap(s[2])
            [] s[1] = "copy" -> Copy(p, s[2])
            [] s[1] = "copyM" -> CopyM
            [] s[1] = "give" -> Given({s[2]}, ty[p]) /\ UNCHANGED <<data, committed, ev>>
       /\ held' = [held EXCEPT ![p] = IF s[1] = "give" THEN @ \ {s[2]} ELSE @]
    /\ todo' = [todo EXCEPT ![p] = Tail(@)]
    /\ IF Len(todo[p]) > 1 THEN UNCHANGED <<st, ty, acc, nop, snap, cur>>
       ELSE /\ st' = [st EXCEPT ![p] = "idle"] /\ acc' = [acc EXCEPT ![p] = {}] /\ nop' = [nop EXCEPT ![p] = 0]
            /\ ty' = [ty EXCEPT ![p] = CHOOSE t \in Types : TRUE]
            /\ snap' = [snap EXCEPT ![p] = NoStore] /\ cur' = [cur EXCEPT ![p] = NoStore]
    /\ UNCHANGED <<used, ntx>>

Next == \E p \in Procs :
    \/ \E t \in Types : Start(p, t)
    \/ Take(p) \/ New(p) \/ End(p) \/ Step(p)
    \/ \E h \in cur[p].ents : Destroy(p, h) \/ \E c \in Comps : Unset(p, h, c) \/ Write(p, h, c, Default, FALSE) \/ \E v \in Vals : Write(p, h, c, v, TRUE)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Take(p)) /\ WF_vars(End(p)) /\ WF_vars(Step(p))

--------------------------------------------------------------------------------
\* What copies of the storage say, as an abstract store restricted to the components cs
Ents(m) == {<<s, m[s].gen>> : s \in {z \in 1..Len(m) : m[z].ex}}
With(m, c) == {<<s, m[s].gen>> : s \in {z \in 1..Len(m) : m[z].ex /\ c \in m[z].has}}
Shows(m, v, store, cs) ==
    /\ Ents(m) = store.ents
    /\ \A c \in Comps : With(m, c) = DOMAIN store.comp[c]       \* Has, also without permission
    /\ \A c \in cs : \A h \in With(m, c) : v[c][h[1]] = store.comp[c][h]
Once(l, S) == /\ \A h \in S : Cardinality({k \in 1..Len(l) : l[k] = h}) = 1
              /\ \A k \in 1..Len(l) : l[k] \in S \cup {Null}
Lists(e, l, store) == Once(e, store.ents) /\ \A c \in Comps : Once(l[c], DOMAIN store.comp[c])
NoHoles(l) == \A k \in 1..Len(l) : l[k] # Null

\* C01, C10, C11: an active transaction sees its snapshot, all of it, at every step
SeesSnapshot == \A p \in Procs : st[p] = "act" =>
    /\ Shows(rm, rv, snap[p], ty[p].r)
    /\ Lists(re, rl, snap[p]) /\ NoHoles(re) /\ \A c \in Comps : NoHoles(rl[c])
\* C03, C10, C13: a writer works on the latest committed state with its own changes
SeesOwn == \A p \in Procs : st[p] = "act" =>
    IF ty[p].ar THEN Shows(wm, wv, cur[p], Comps) /\ Lists(we, wl, cur[p])
    ELSE \A c \in ty[p].w : \A h \in DOMAIN cur[p].comp[c] : wv[c][h[1]] = cur[p].comp[c][h]
Latest == \A p \in Procs : st[p] = "act" => \A c \in ty[p].w : snap[p].comp[c] = committed.comp[c]
\* C14: when nobody is there, both copies are what was committed
Quiet == (\A p \in Procs : st[p] = "idle") =>
    /\ Shows(rm, rv, committed, Comps) /\ Shows(wm, wv, committed, Comps)
    /\ Lists(re, rl, committed) /\ we = re /\ wl = rl
    /\ \A x \in Res : shared[x] = 0 /\ ~excl[x] /\ writer[x] = 0
\* C13: a slot that is free or has no component c holds the default, in the copy that is written to next
NoRemains == (\A p \in Procs : st[p] = "idle") => \A c \in Comps : \A s \in 1..Len(wm) : c \notin wm[s].has => wv[c][s] = Default
\* C16
NetOnly == \A p \in Procs : st[p] = "end" /\ M \in acc[p] /\ todo[p] # << >> /\ Head(todo[p])[1] \notin {"rebuild"} => ev[p] = NetEvents(snap[p], cur[p])
\* C09, C11
FreeIsFree == (\A p \in Procs : st[p] # "end") => \A k \in 1..Len(free) : free[k] \notin used /\ ~wm[free[k][1]].ex
\* C12: within a transaction the list grows only at its end, and entries change only to null
Stable(l, m) == Len(m) >= Len(l) /\ \A k \in 1..Len(l) : m[k] = l[k] \/ m[k] = Null
ListsStable == [][\A p \in Procs : (st[p] = "act" /\ st'[p] = "act" /\ ty[p].ar) => Stable(we, we') /\ \A c \in Comps : Stable(wl[c], wl'[c])]_vars
ReadFrozen == [][\A p \in Procs : (st[p] = "act" /\ st'[p] = "act") => rm' = rm /\ re' = re /\ rl' = rl /\ \A c \in ty[p].r : rv'[c] = rv[c]]_vars
\* C05 of these steps
Ends == \A p \in Procs : (st[p] # "idle") ~> (st[p] = "idle")
================================================================================
