-------------------------------- MODULE TraceTecs --------------------------------
(* Accepts a recorded execution of the real code iff it is a behaviour of Tecs. *)
EXTENDS Tecs, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)

VARIABLES l,     \* next line of the trace
          reg,    \* thread -> instances in its registry, see TecsNest.tla; used only to recognise the known finding of C21
          rf      \* references the program keeps: name -> what it denotes
tvars == <<vars, l, reg, rf>>
UseReg == "REG" \in DOMAIN IOEnv
RegNest(t, i) == IF t \notin DOMAIN reg THEN "no"
                 ELSE IF i \in reg[t] \/ Cardinality(reg[t]) >= MaxActive THEN "yes" ELSE "no"
RegOf(t) == IF t \in DOMAIN reg THEN reg[t] ELSE {}

\* A check may leave aspects to the checks of other properties: NO_ID, NO_UC, NO_LIST, NO_GLOB, NO_OBS.
Judge(aspect) == ~(("NO_" \o aspect) \in DOMAIN IOEnv)
JId == Judge("ID")
JUc == Judge("UC")
JList == Judge("LIST")
JGlob == Judge("GLOB")
JObs == Judge("OBS")

\* The limit of transactions per thread this build was configured with
TraceMaxActive == IF "MAX_ACTIVE" \in DOMAIN IOEnv THEN atoi(IOEnv.MAX_ACTIVE) ELSE 64
SeqSet(s) == {s[j] : j \in DOMAIN s}
Insts(q) == [i \in 0..(Len(q) - 1) |-> NewInstance(q[i + 1])]
Distinct(q) == \A a, b \in DOMAIN q : a # b => q[a] # q[b]

Init == /\ l = 1 /\ reg = Empty /\ rf = Empty
        /\ ins = Empty /\ tx = Empty /\ lk = Empty /\ used = {} /\ vw = Empty /\ ob = Empty /\ ids = {} /\ maxid = 0

Out(e) == [res |-> e.res, v |-> e.v]
Pairs(s) == {<<s[j][1], s[j][2]>> : j \in DOMAIN s}
FunPairs(f) == {<<k, f[k]>> : k \in DOMAIN f}

\* The full projection of a view: everything that can be asked of it.
Full(e, prev) ==
    /\ Usable(e.l)
    /\ LET L == lk[e.l]
           M == IF prev THEN Prev(L) ELSE Meta(L)
           V(c) == IF prev THEN Prev(L) ELSE Val(L, c) IN
       /\ SeqSet(e.ex) = M.ents
       /\ SeqSet(e.pA) = DOMAIN M.comp["A"] /\ SeqSet(e.pB) = DOMAIN M.comp["B"] /\ SeqSet(e.pC) = DOMAIN M.comp["C"]
       /\ "A" \in L.r => Pairs(e.vA) = FunPairs(V("A").comp["A"])
       /\ "B" \in L.r => Pairs(e.vB) = FunPairs(V("B").comp["B"])
       /\ "C" \in L.r => Pairs(e.vC) = FunPairs(V("C").comp["C"])
       /\ JGlob => /\ SeqSet(e.pg) = DOMAIN M.glob
                   /\ Pairs(e.vg) = {<<c, V(c).glob[c]>> : c \in DOMAIN M.glob \cap L.r}
       /\ JList => /\ ListOk(e.l, "E", prev, e.lE) /\ ListOk(e.l, "A", prev, e.lA)
                   /\ ListOk(e.l, "B", prev, e.lB) /\ ListOk(e.l, "C", prev, e.lC)

\* An entity operation through an entry of a list acts on the entity the entry shows.
Via(e) == "vw" \in DOMAIN e => e.vw \in DOMAIN vw /\ e.ix <= Len(vw[e.vw].s) /\ vw[e.vw].s[e.ix] = e.h

EntOp(e) ==
    LET n == e.l
        h == e.h
        cs == SeqSet(e.c)
        c == e.c[1]
        ok == e.res = "ok"
        L == lk[n] IN
    /\ Usable(n) /\ Via(e)
    /\ CASE e.k = "exists"  -> ok /\ e.b = (IF Exists(Meta(L), h) THEN 1 ELSE 0) /\ Same
         [] e.k = "existed" -> ok /\ e.b = (IF Exists(Prev(L), h) THEN 1 ELSE 0) /\ Same
         [] e.k = "has"     -> ok /\ e.b = (IF HasAll(Meta(L), h, cs) THEN 1 ELSE 0) /\ Same
         [] e.k = "had"     -> ok /\ e.b = (IF HasAll(Prev(L), h, cs) THEN 1 ELSE 0) /\ Same
         [] e.k = "get"     -> c \in L.r /\ Out(e) = GetOut(n, h, c) /\ Same
         [] e.k = "getm"    -> IF c \in L.w THEN GetM(n, h, c, Out(e)) ELSE c \in L.r /\ Out(e) = GetOut(n, h, c) /\ Same
         [] e.k = "mod"     -> c \in L.w /\ Modify(n, h, c, e.a, Out(e))
         [] e.k = "prev"    -> c \in L.r /\ Out(e) = PrevOut(n, h, c) /\ Same
         [] e.k \in {"set", "setref"} -> c \in L.w /\ SetOp(n, h, c, e.a, Out(e))
         [] e.k = "unset"   -> L.ar /\ Unset(n, h, cs, e.res)
         [] e.k \in {"destroy", "destroyv"} ->
                L.ar /\ Destroy(n, h, e.res) /\ (e.k = "destroyv" => e.nh = IF ok THEN NullH ELSE h)

GlobOp(e) ==
    LET n == e.l
        cs == SeqSet(e.c)
        c == e.c[1]
        ok == e.res = "ok"
        L == lk[n] IN
    /\ Usable(n)
    /\ CASE e.k = "ghas" -> ok /\ e.b = (IF GHasAll(Meta(L), cs) THEN 1 ELSE 0) /\ Same
         [] e.k = "ghad" -> ok /\ e.b = (IF GHasAll(Prev(L), cs) THEN 1 ELSE 0) /\ Same
         [] e.k = "gget" -> c \in L.r /\ Out(e) = GGetOut(n, c) /\ Same
         [] e.k = "ggetm" -> IF c \in L.w THEN GGetM(n, c, Out(e)) ELSE c \in L.r /\ Out(e) = GGetOut(n, c) /\ Same
         [] e.k = "gmod" -> c \in L.w /\ GModify(n, c, e.a, Out(e))
         [] e.k = "gprev" -> c \in L.r /\ Out(e) = GPrevOut(n, c) /\ Same
         [] e.k \in {"gset", "gsetref"} -> c \in L.w /\ GSet(n, c, e.a, Out(e))
         [] e.k = "gunset" -> L.ar /\ GUnset(n, cs, e.res)

EntKinds == {"exists", "existed", "has", "had", "get", "getm", "mod", "prev", "set", "setref", "unset", "destroy", "destroyv"}
GlobKinds == {"ghas", "ghad", "gget", "ggetm", "gmod", "gprev", "gset", "gsetref", "gunset"}

Step(e) ==
    CASE e.k \in EntKinds -> EntOp(e)
      [] e.k \in GlobKinds -> GlobOp(e)
      [] e.k = "prog" -> /\ JId => Distinct(e.ids)
                         /\ ins' = Insts(e.ids)
                         /\ tx' = Empty /\ lk' = Empty /\ used' = {} /\ vw' = Empty /\ ob' = Empty /\ ids' = {}
                         /\ maxid' = e.mx
      [] e.k = "inst" -> /\ JId => \A i \in DOMAIN ins : ins[i].id # e.id
                         /\ ins' = Put(ins, e.i, NewInstance(e.id))
                         /\ UNCHANGED <<tx, lk, used, vw, ob, ids, maxid>>
      [] e.k = "del" -> EndInstance(e.i)
      [] e.k = "sc" -> StartCall(e.t, e.l, e.x, e.i, SeqSet(e.r), SeqSet(e.w), e.ar = 1, IF UseReg THEN RegNest(e.t, e.i) ELSE Nest(e.t, e.i))
      [] e.k = "sr" -> IF e.ok = 1 THEN StartOk(e.x, IF JId THEN e.id ELSE maxid + 1) ELSE StartRejected(e.x)
      [] e.k = "dc" -> DropCall(e.l) 
      [] e.k = "dr" -> DropRet(e.x, e.l)
      [] e.k = "copy" -> CopyLock(e.l, e.n) /\ lk[e.l].r = SeqSet(e.r) /\ lk[e.l].w = SeqSet(e.w) /\ lk[e.l].ar = (e.ar = 1)
      [] e.k = "sub" -> Subset(e.l, e.n, SeqSet(e.r), SeqSet(e.w), e.ar = 1)
      [] e.k = "ro" -> e.w = << >> /\ e.ar = 0 /\ ReadOnly(e.l, e.n, SeqSet(e.r))
      [] e.k = "dyn" -> Dynamic(e.l, e.n, SeqSet(e.r), SeqSet(e.w), e.ar = 1)
      [] e.k = "try" -> IF e.ok = 1 THEN TryOk(e.l, e.n, SeqSet(e.r), SeqSet(e.w), e.ar = 1)
                        ELSE TryFail(e.l, SeqSet(e.r), SeqSet(e.w), e.ar = 1)
      [] e.k = "uc" -> Usable(e.l) /\ (JUc => e.v = Cardinality(Locks(lk[e.l].x))) /\ Same
      [] e.k = "txid" -> Usable(e.l) /\ (JId => e.id = tx[lk[e.l].x].id) /\ Same
      [] e.k = "full" -> Full(e, FALSE) /\ Same
      [] e.k = "fullp" -> Full(e, TRUE) /\ Same
      [] e.k = "new" -> e.res = "ok" /\ e.ei = e.hi /\ NewOk(e.l, e.h, e.hi)
      [] e.k = "list" -> TakeList(e.l, e.vw, e.c, e.p = 1, e.x)
      [] e.k = "view" -> /\ e.vw \in DOMAIN vw => vw[e.vw].s = e.x
                         /\ Same
      [] e.k = "deref" -> e.n \in DOMAIN rf /\ RefUsable(rf[e.n]) /\ e.v = RefRead(rf[e.n]) /\ Same
      [] e.k = "wref" -> e.n \in DOMAIN rf /\ RefUsable(rf[e.n]) /\ e.v = e.a /\ RefWrite(rf[e.n], e.a)
      [] e.k = "watch" -> Watch(e.l, e.o, e.c)
      [] e.k = "stopw" -> StopWatch(e.l, e.o)
      [] e.k = "poll" -> IF e.ok = 1 THEN PollEvent(e.l, e.o, <<e.ev[1], e.ev[2], e.ev[3]>>) ELSE PollNone(e.l, e.o)
      [] e.k \in {"q", "fin"} -> Same
      [] OTHER -> FALSE     \* crash, hang, stuck

Reg(e) ==
    CASE ~UseReg -> reg
      [] e.k = "prog" -> Empty
      [] e.k = "sr" /\ e.ok = 1 -> Put(reg, e.t, RegOf(e.t) \cup {tx[e.x].i})
      [] e.k = "dr" /\ e.x \in DOMAIN tx /\ tx[e.x].st = "done" -> Put(reg, e.t, RegOf(e.t) \ {tx[e.x].i})
      [] OTHER -> reg
\* References that were kept, by name
Kept(e) ==
    CASE e.k = "prog" -> Empty
      [] "as" \in DOMAIN e -> Put(rf, e.as, RefTo(e.l, IF e.k \in GlobKinds THEN NullH ELSE e.h, e.c[1], e.k \in {"prev", "gprev"}))
      [] OTHER -> rf
Read == l <= N /\ Step(Trace[l]) /\ l' = l + 1 /\ reg' = Reg(Trace[l]) /\ rf' = Kept(Trace[l])
Internal == (\E x \in DOMAIN tx : Begin(x) \/ Commit(x)) /\ UNCHANGED <<l, reg, rf>>

Next == Read \/ Internal
Spec == Init /\ [][Next]_tvars

\* Remember how far any behaviour got.
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
