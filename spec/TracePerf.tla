---------------------------------- MODULE TracePerf ----------------------------------
(***************************************************************************)
(* C24: is a performance trace what happened?                              *)
(*                                                                         *)
(* The harness gives every call (start and end of a transaction, start and *)
(* stop of a trace) its interval of a virtual time that also is the clock  *)
(* of the code.  From the transactions and what they wrote, this module    *)
(* knows what each call locks and unlocks; a trace must attribute to each  *)
(* call exactly that, and the events of one resource must be a legal       *)
(* history of its lock.  Only of a call during which the trace was started *)
(* or stopped, or at which its capacity ended, a part may be missing.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)
Inf == 1000000000
M == "M"

VARIABLES l,
          hd,      \* order of the components, capacity of a list
          tx,      \* transaction -> [t, i, r, w, ar, must, may, ok, sc, sr, et, dc, dr]
          lk,      \* lock name -> [x, w]
          on,      \* instance -> interval of the call that started its trace
          qs       \* quiescent points: [tm, b]
vars == <<l, hd, tx, lk, on, qs>>

Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Remove(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Empty == [y \in {} |-> 0]
SeqSet(s) == {s[j] : j \in DOMAIN s}

WantsW(T) == T.w \cup (IF T.ar THEN {M} ELSE {})
WantsR(T) == (T.r \ T.w) \cup (IF T.ar THEN {} ELSE {M})
Wants(T) == WantsW(T) \cup WantsR(T)

-------------------------------------------------------------------------------
(* What happened: calls *)
Calls(i) == {[x |-> x, k |-> "start", t |-> tx[x].t, from |-> tx[x].sc, to |-> tx[x].sr] : x \in {y \in DOMAIN tx : tx[y].i = i}}
       \cup {[x |-> x, k |-> "end", t |-> tx[x].et, from |-> tx[x].dc, to |-> tx[x].dr] : x \in {y \in DOMAIN tx : tx[y].i = i /\ tx[y].et # 0}}

(* The sequences of events that one call makes on one resource: first, last and following ones *)
Lang(c, o) ==
    LET T == tx[c.x] IN
    IF ~T.ok THEN [none |-> TRUE, first |-> {}, last |-> {}, next |-> {}]
    ELSE IF o = "T" THEN LET n == IF c.k = "start" THEN "TransactionStart" ELSE "TransactionEnd" IN [none |-> FALSE, first |-> {n}, last |-> {n}, next |-> {}]
    ELSE IF o \notin Wants(T) THEN [none |-> TRUE, first |-> {}, last |-> {}, next |-> {}]
    ELSE LET w == o \in WantsW(T)
             p == IF w THEN "Write" ELSE "Read" IN
    IF c.k = "start" THEN
        [none |-> FALSE, first |-> {p \o "LockWait", p \o "Lock"}, last |-> {p \o "Lock"},
         next |-> {<<p \o "LockWait", p \o "Lock">>, <<p \o "Lock", p \o "Unlock">>, <<p \o "Unlock", p \o "LockWait">>, <<p \o "Unlock", p \o "Lock">>}]
    ELSE IF ~w THEN [none |-> FALSE, first |-> {"ReadUnlock"}, last |-> {"ReadUnlock"}, next |-> {}]
    ELSE [none |-> FALSE, last |-> {"WriteUnlock"},
          first |-> (IF o \in T.may THEN {"CommitLockWait", "CommitLock"} ELSE {}) \cup (IF o \in T.must THEN {} ELSE {"WriteUnlock"}),
          next |-> {<<"CommitLockWait", "CommitLock">>, <<"CommitLock", "CommitUnlock">>, <<"CommitUnlock", "WriteUnlock">>}]

\* s is a word, or the part of one that the trace saw
Word(s, L, cutStart, cutEnd) ==
    IF s = <<>> THEN L.none \/ cutStart \/ cutEnd
    ELSE /\ ~L.none
         /\ cutStart \/ s[1] \in L.first
         /\ cutEnd \/ s[Len(s)] \in L.last
         /\ \A j \in 1..(Len(s) - 1) : <<s[j], s[j + 1]>> \in L.next
         /\ \A j \in DOMAIN s : s[j] \in L.first \cup L.last \cup {p[2] : p \in L.next}

(* A legal history of one lock *)
RECURSIVE Legal(_, _, _, _, _)
Legal(s, j, rd, wr, cm) ==     \* readers, writer (0: none), does it commit
    IF j > Len(s) THEN TRUE ELSE
    LET t == s[j][2] IN
    CASE s[j][1] = "ReadLock" -> ~cm /\ t \notin rd /\ Legal(s, j + 1, rd \cup {t}, wr, cm)
      [] s[j][1] = "ReadUnlock" -> t \in rd /\ Legal(s, j + 1, rd \ {t}, wr, cm)
      [] s[j][1] = "WriteLock" -> wr = 0 /\ Legal(s, j + 1, rd, t, FALSE)
      [] s[j][1] = "CommitLockWait" -> wr = t /\ ~cm /\ Legal(s, j + 1, rd, wr, cm)
      [] s[j][1] = "CommitLock" -> wr = t /\ ~cm /\ rd = {} /\ Legal(s, j + 1, rd, wr, TRUE)
      [] s[j][1] = "CommitUnlock" -> wr = t /\ cm /\ Legal(s, j + 1, rd, wr, FALSE)
      [] s[j][1] = "WriteUnlock" -> wr = t /\ Legal(s, j + 1, rd, 0, FALSE)
      [] s[j][1] \in {"ReadLockWait", "WriteLockWait"} -> t \notin rd /\ t # wr /\ Legal(s, j + 1, rd, wr, cm)
      [] OTHER -> FALSE
LegalFrom(s, o, i, ts) ==      \* whoever might have held the lock when the trace began
    LET there == {x \in DOMAIN tx : tx[x].i = i /\ tx[x].sc < ts.to /\ tx[x].dr > ts.from}
        R == {tx[x].t : x \in {x \in there : o \in WantsR(tx[x])}}
        W == {tx[x].t : x \in {x \in there : o \in WantsW(tx[x])}}
    IN  \E rd \in SUBSET R, wr \in {0} \cup W : \E cm \in IF wr # 0 /\ rd = {} THEN {TRUE, FALSE} ELSE {FALSE} : Legal(s, 1, rd, wr, cm)

-------------------------------------------------------------------------------
Overlap(x, c) == tx[x].sc < c.to /\ tx[x].dr > c.from
WaitTypes == {"ReadLockWait", "WriteLockWait", "CommitLockWait"}

\* s: the events of resource o, [type, thread, time]
ListOk(s, o, i, ts, te) ==
    LET C == Calls(i)
        In(c, v) == v[2] = c.t /\ c.from < v[3] /\ v[3] < c.to
        Of(c) == SelectSeq(s, LAMBDA v : In(c, v))
        full == Len(s) >= hd.cap
        lastFrom == IF ~full THEN Inf ELSE LET Q == {c \in C : In(c, s[Len(s)])} IN IF Q = {} THEN 0 ELSE (CHOOSE c \in Q : TRUE).from
    IN  /\ Len(s) <= hd.cap
        /\ \A j \in DOMAIN s : ts.from < s[j][3] /\ s[j][3] < te.to
        /\ \A j \in DOMAIN s : \E c \in C : In(c, s[j])
        /\ \A j \in DOMAIN s : \A k \in DOMAIN s : j < k /\ s[j][2] = s[k][2] => s[j][3] <= s[k][3]
        /\ \A c \in C : LET z == Of(c) IN
             /\ Word([j \in DOMAIN z |-> z[j][1]], IF c.to < ts.from \/ c.from > te.to THEN [none |-> TRUE, first |-> {}, last |-> {}, next |-> {}] ELSE Lang(c, o),
                     c.from < ts.to, c.to > te.from \/ c.to > lastFrom)
             \* nobody waits or gives up if nobody is in the way
             /\ \A j \in DOMAIN z : z[j][1] \in WaitTypes => \E y \in DOMAIN tx \ {c.x} : tx[y].i = i /\ Overlap(y, c) /\ o \in Wants(tx[y])
             /\ (c.k = "start" /\ \E j \in DOMAIN z : z[j][1] \in {"ReadUnlock", "WriteUnlock"}) => \E y \in DOMAIN tx \ {c.x} : tx[y].i = i /\ Overlap(y, c)
        /\ o = "T" \/ LegalFrom(s, o, i, ts)

\* Whoever was seen waiting has said so
Waited(lists, i, ts, te) ==
    \A q \in qs : q.tm > te.from \/ \A t \in q.b :
        \A c \in {c \in Calls(i) : c.t = t /\ c.from >= ts.to /\ c.from < q.tm /\ q.tm < c.to} :
            LET E == UNION {{lists[j][k] : k \in {k \in DOMAIN lists[j] : lists[j][k][2] = t /\ lists[j][k][3] > c.from /\ lists[j][k][3] < q.tm}} : j \in DOMAIN lists}
            IN  \/ \E j \in DOMAIN lists : Len(lists[j]) >= hd.cap
                \/ \E v \in E : v[1] \in WaitTypes /\ \A u \in E : u[3] <= v[3]

Names == [j \in DOMAIN hd.order |-> IF hd.order[j] = "A" THEN "Alpha" ELSE "Component" \o ToString(j - 1)]
CsvOk(e) ==
    LET lists == <<e.tx>> \o e.ev
        cols == <<"Transaction", "Metadata">> \o e.names
        header == [j \in 1..(3 * Len(cols)) |-> cols[((j - 1) \div 3) + 1] \o <<" Event", " Thread Id", " TimeNs">>[((j - 1) % 3) + 1]]
        cell(r, j) == LET s == lists[((j - 1) \div 3) + 1] IN
            IF r > Len(s) THEN "" ELSE CASE (j - 1) % 3 = 0 -> s[r][1] [] (j - 1) % 3 = 1 -> e.tn[s[r][2]] [] OTHER -> ToString(s[r][3])
    IN  /\ Len(e.csv) > 0 /\ e.csv[1] = header
        /\ \A j \in DOMAIN lists : Len(lists[j]) < Len(e.csv)
        /\ \A r \in 2..Len(e.csv) : Len(e.csv[r]) = Len(header) /\ \A j \in DOMAIN header : e.csv[r][j] = cell(r - 1, j)

TraceOk(e, ts) ==
    LET te == [from |-> e.from, to |-> e.to] IN
    /\ Len(e.ev) = 1 + Len(hd.order)
    /\ e.names = Names
    /\ ListOk(e.tx, "T", e.i, ts, te)
    /\ \A j \in DOMAIN e.ev : ListOk(e.ev[j], IF j = 1 THEN M ELSE hd.order[j - 1], e.i, ts, te)
    /\ Waited(e.ev, e.i, ts, te)
    /\ CsvOk(e)

-------------------------------------------------------------------------------
Plain == {"set", "setref", "mod", "getm"}
GPlain == {"gset", "gsetref", "gmod", "ggetm"}
Structural == {"new", "destroy", "destroyv", "unset", "gunset"}
Op(e) == LET L == lk[e.l]  T == tx[L.x]
             sure == CASE e.res # "ok" -> {} [] e.k \in Plain \cup GPlain -> SeqSet(e.c) \cap L.w [] e.k = "new" -> {M} [] OTHER -> {}
             maybe == IF T.ar THEN {M} \cup T.w ELSE SeqSet(e.c) \cap L.w
         IN  tx' = [tx EXCEPT ![L.x].must = @ \cup sure, ![L.x].may = @ \cup maybe \cup sure] /\ UNCHANGED <<hd, lk, on, qs>>

Step(e) ==
    CASE e.k = "prog" -> hd' = [order |-> e.order, cap |-> e.cap] /\ tx' = Empty /\ lk' = Empty /\ on' = Empty /\ qs' = {}
      [] e.k \in Plain \cup GPlain \cup Structural -> Op(e)
      [] e.k = "sc" -> /\ tx' = Put(tx, e.x, [t |-> e.t, i |-> e.i, r |-> SeqSet(e.r), w |-> SeqSet(e.w), ar |-> e.ar = 1, must |-> {}, may |-> {}, ok |-> TRUE,
                                             sc |-> e.tm, sr |-> Inf, et |-> 0, dc |-> Inf, dr |-> Inf])
                       /\ UNCHANGED <<hd, lk, on, qs>>
      [] e.k = "sr" -> /\ tx' = [tx EXCEPT ![e.x].sr = e.tm, ![e.x].ok = (e.ok = 1), ![e.x].dr = IF e.ok = 1 THEN @ ELSE e.tm]
                       /\ lk' = IF e.ok = 1 THEN Put(lk, e.l, [x |-> e.x, w |-> tx[e.x].w]) ELSE lk
                       /\ UNCHANGED <<hd, on, qs>>
      [] e.k = "dc" -> LET x == lk[e.l].x IN
                       /\ lk' = Remove(lk, e.l)
                       /\ tx' = IF \E m \in DOMAIN lk \ {e.l} : lk[m].x = x THEN tx ELSE [tx EXCEPT ![x].dc = e.tm, ![x].et = e.t]
                       /\ UNCHANGED <<hd, on, qs>>
      [] e.k = "dr" -> /\ tx' = IF tx[e.x].et = e.t THEN [tx EXCEPT ![e.x].dr = e.tm] ELSE tx
                       /\ UNCHANGED <<hd, lk, on, qs>>
      [] e.k \in {"copy", "sub", "ro", "dyn", "try"} -> /\ lk' = IF e.ok = 1 THEN Put(lk, e.n, [x |-> lk[e.l].x, w |-> SeqSet(e.w)]) ELSE lk
                                                        /\ UNCHANGED <<hd, tx, on, qs>>
      [] e.k = "q" -> qs' = (IF e.b = <<>> THEN qs ELSE qs \cup {[tm |-> e.tm, b |-> SeqSet(e.b)]}) /\ UNCHANGED <<hd, tx, lk, on>>
      [] e.k = "tstart" -> /\ (e.ok = 1) = (e.i \notin DOMAIN on)
                           /\ on' = IF e.ok = 1 THEN Put(on, e.i, [from |-> e.from, to |-> e.to]) ELSE on
                           /\ UNCHANGED <<hd, tx, lk, qs>>
      [] e.k = "tstop" -> /\ (e.ok = 1) = (e.i \in DOMAIN on)
                          /\ IF e.ok = 1 THEN TraceOk(e, on[e.i]) = TRUE /\ on' = Remove(on, e.i) ELSE on' = on
                          /\ UNCHANGED <<hd, tx, lk, qs>>
      [] e.k \in {"crash", "hang", "stuck"} -> FALSE
      [] OTHER -> UNCHANGED <<hd, tx, lk, on, qs>>
Init == l = 1 /\ hd = Empty /\ tx = Empty /\ lk = Empty /\ on = Empty /\ qs = {}
Next == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
