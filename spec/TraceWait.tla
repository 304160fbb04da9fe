--------------------------------- MODULE TraceWait ---------------------------------
(***************************************************************************)
(* Is the waiting seen in the real code allowed?  The trace contains the   *)
(* calls and returns of starts and releases, the accesses, and `q' events: *)
(* no thread could go on, and exactly the threads in b are inside a call.  *)
(*                                                                         *)
(* The steps of TecsWait between call and return are not in the trace.     *)
(* Between two quiescent points the order in which a transaction acquires  *)
(* several resources is not observable; so a start that returned is only   *)
(* compared with what is certain: running writers, and commits that have   *)
(* been waiting since the last quiescent point for a reader that is still  *)
(* running.                                                                *)
(***************************************************************************)
EXTENDS TecsWait, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)

VARIABLES l, lk,     \* lock name -> [x, w]
          wit,       \* waiting commits: transaction -> readers of cur at the last quiescent point
          bare, gp   \* entities that never had a component; <<instance, global component>> that may be present
tvars == <<tx, l, lk, wit, bare, gp>>
AllRes == {"A", "B", "C", "G", "H", M}

Judge(aspect) == ~(("NO_" \o aspect) \in DOMAIN IOEnv)
JBarge == Judge("BARGE")
SeqSet(s) == {s[j] : j \in DOMAIN s}
Init == l = 1 /\ tx = Empty /\ lk = Empty /\ wit = Empty /\ bare = {} /\ gp = {}

\* What an operation accesses for writing.  A structural operation may touch everything; the programs of this check add
\* components only to entities of the same transaction, and unset only what is there or was never there.
Plain == {"set", "setref", "mod", "getm"}
GPlain == {"gset", "gsetref", "gmod", "ggetm"}
Structural == {"new", "destroy", "destroyv", "unset", "gunset"}
NoChange(e) == \/ e.k = "unset" /\ e.h \in bare
               \/ e.k = "gunset" /\ \A c \in SeqSet(e.c) : <<tx[lk[e.l].x].i, c>> \notin gp
Touched(e) == LET L == lk[e.l] IN
    CASE e.k \in Plain \cup GPlain -> SeqSet(e.c) \cap L.w
      [] e.k \in Structural -> IF NoChange(e) THEN {} ELSE {M} \cup tx[L.x].w
Op(e) == /\ e.l \in DOMAIN lk
         /\ Access(lk[e.l].x, Touched(e))
         /\ bare' = CASE e.k = "new" -> bare \cup {e.h}
                      [] e.k \in Plain -> bare \ {e.h}
                      [] OTHER -> bare
         /\ gp' = IF e.k \in GPlain THEN gp \cup {<<tx[lk[e.l].x].i, e.c[1]>>} ELSE gp
         /\ UNCHANGED <<lk, wit>>

\* Is c still waited for since the last quiescent point?
Certain(x) == tx[x].cur # None /\ x \in DOMAIN wit /\ \E y \in wit[x] : y \in DOMAIN tx /\ Is(y, "act")

\* A thread whose transaction was ended by another one may be rejected while that goes on, see TraceTecs.
NotNested(x) == ~ \E y \in Others(x) : tx[y].th = tx[x].th /\ Is(y, "act")
StartRet(e) ==
    IF e.ok = 0 THEN /\ tx' = Remove(tx, {e.x}) /\ UNCHANGED <<lk, wit>>
    ELSE /\ Is(e.x, "req") /\ NotNested(e.x)
         /\ WriterBlocks(e.x) = {}
         /\ JBarge => \A x \in Others(e.x) : Is(x, "end") /\ Certain(x) => tx[x].cur \notin WantsR(tx[e.x]) \cup WantsW(tx[e.x])
         /\ tx' = [tx EXCEPT ![e.x].st = "act"]
         /\ lk' = Put(lk, e.l, [x |-> e.x, w |-> tx[e.x].w])
         /\ UNCHANGED wit

DropC(e) == LET x == lk[e.l].x IN
    /\ lk' = Remove(lk, {e.l})
    /\ tx' = IF \E m \in DOMAIN lk \ {e.l} : lk[m].x = x THEN tx ELSE [tx EXCEPT ![x].st = "end", ![x].th = e.t]
    /\ UNCHANGED wit
DropR(e) == /\ tx' = IF e.x \in DOMAIN tx /\ Is(e.x, "end") /\ tx[e.x].th = e.t THEN Remove(tx, {e.x}) ELSE tx
            /\ wit' = Remove(wit, {e.x})
            /\ UNCHANGED lk

\* Quiescence: whoever is inside a call has a reason.  For every commit that waits, some resource it waits for is chosen;
\* a commit that certainly kept waiting keeps it.
Choices(x) == IF Certain(x) THEN {tx[x].cur}
              ELSE {c \in tx[x].acc : \E y \in Others(x) : tx[y].st \in {"act", "end"} /\ c \in WantsR(tx[y])}
Quiescent(e) ==
    /\ {tx[x].th : x \in Pending} = SeqSet(e.b)
    /\ \A x \in DOMAIN tx : Is(x, "req") => StartJustified(x) /\ NotNested(x)
    /\ LET E == {x \in DOMAIN tx : Is(x, "end")} IN
       \E f \in [E -> AllRes] :
         /\ \A x \in E : f[x] \in Choices(x)
         /\ tx' = [x \in DOMAIN tx |-> IF x \in E THEN [tx[x] EXCEPT !.cur = f[x]] ELSE tx[x]]
         /\ wit' = [x \in E |-> IF Certain(x) THEN wit[x] \cap DOMAIN tx ELSE {y \in Others(x) : Is(y, "act") /\ f[x] \in WantsR(tx[y])}]
    /\ UNCHANGED lk
Derived(e) == /\ lk' = IF e.ok = 1 THEN Put(lk, e.n, [x |-> lk[e.l].x, w |-> SeqSet(e.w)]) ELSE lk
              /\ UNCHANGED <<tx, wit>>

Step(e) ==
    CASE e.k = "prog" -> tx' = Empty /\ lk' = Empty /\ wit' = Empty /\ bare' = {} /\ gp' = {}
      [] e.k \in Plain \cup GPlain \cup Structural -> Op(e)
      [] OTHER -> /\ UNCHANGED <<bare, gp>>
                  /\ CASE e.k = "sc" -> StartCall(e.x, e.t, e.i, SeqSet(e.r), SeqSet(e.w), e.ar = 1) /\ UNCHANGED <<lk, wit>>
                       [] e.k = "sr" -> StartRet(e)
                       [] e.k = "dc" -> DropC(e)
                       [] e.k = "dr" -> DropR(e)
                       [] e.k \in {"copy", "sub", "ro", "dyn", "try"} -> Derived(e)
                       [] e.k = "q" -> Quiescent(e)
                       [] e.k \in {"crash", "hang", "stuck"} -> FALSE
                       [] OTHER -> UNCHANGED <<tx, lk, wit>>

Next == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars

Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
