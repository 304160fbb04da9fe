---------------------------------- MODULE TecsHB ----------------------------------
(***************************************************************************)
(* C08: happens-before in the C++20 memory model, and data races.          *)
(*                                                                         *)
(* The trace contains every operation on an atomic (with its memory order) *)
(* and, between two of them, the memory locations a thread read and wrote; *)
(* all code of the library is instrumented for this by the compiler.  The  *)
(* executions are interleavings, so an atomic read reads from the last     *)
(* write in the trace; what is judged is whether the orders requested by   *)
(* the code are strong enough on every implementation of the model.        *)
(*                                                                         *)
(* Vector clocks: C[t][u] is the latest epoch of thread u that happens     *)
(* before the next operation of t.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)

VARIABLES l, T,   \* threads
          C,      \* thread -> clock
          Rel,    \* atomic -> clock released to whoever acquires by reading the present value
          AF, RF, \* thread -> clock acquired by relaxed reads so far / clock at the last release fence
          W,      \* location -> <<thread, epoch>> of the last write
          R       \* location -> thread -> epoch of its last read (0: none)
vars == <<l, T, C, Rel, AF, RF, W, R>>

Max(a, b) == IF a > b THEN a ELSE b
Join(c, d) == [u \in T |-> Max(c[u], d[u])]
Zero == [u \in T |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Acquires(m) == m \in {"acq", "ar", "sc"}
Releases(m) == m \in {"rel", "ar", "sc"}
SeqSet(s) == {s[j] : j \in DOMAIN s}

Tick(c, t) == [c EXCEPT ![t] = @ + 1]

\* Reading an atomic
Read(t, a, m) == LET r == Get(Rel, a, Zero) IN
    IF Acquires(m) THEN [c |-> Join(C[t], r), af |-> AF[t]] ELSE [c |-> C[t], af |-> Join(AF[t], r)]
\* What a write releases: everything before it, or everything before the last release fence
Released(t, c, m) == IF Releases(m) THEN c ELSE RF[t]

Load(t, a, m) == LET x == Read(t, a, m) IN
    /\ C' = [C EXCEPT ![t] = x.c] /\ AF' = [AF EXCEPT ![t] = x.af] /\ UNCHANGED <<Rel, RF>>
Store(t, a, m) ==     \* ends every release sequence
    /\ Rel' = Put(Rel, a, Released(t, C[t], m))
    /\ C' = [C EXCEPT ![t] = Tick(@, t)] /\ UNCHANGED <<AF, RF>>
Rmw(t, a, m) == LET x == Read(t, a, m) IN     \* continues them
    /\ Rel' = Put(Rel, a, Join(Get(Rel, a, Zero), Released(t, x.c, m)))
    /\ C' = [C EXCEPT ![t] = Tick(x.c, t)] /\ AF' = [AF EXCEPT ![t] = x.af] /\ UNCHANGED RF
Fence(t, m) ==
    LET c == IF Acquires(m) THEN Join(C[t], AF[t]) ELSE C[t] IN
    /\ RF' = IF Releases(m) THEN [RF EXCEPT ![t] = c] ELSE RF
    /\ C' = [C EXCEPT ![t] = IF Releases(m) THEN Tick(c, t) ELSE c] /\ UNCHANGED <<AF, Rel>>

\* No data race: conflicting accesses of other threads happen before this one
NoRace(t, rd, wr) ==
    /\ \A x \in (rd \cup wr) \cap DOMAIN W : W[x][2] <= C[t][W[x][1]]      \* also true of its own epochs
    /\ \A x \in wr \cap DOMAIN R : \A u \in T \ {t} : R[x][u] <= C[t][u]
Data(t, rd, wr) ==
    /\ NoRace(t, rd, wr)
    /\ W' = [x \in DOMAIN W \cup wr |-> IF x \in wr THEN <<t, C[t][t]>> ELSE W[x]]
    /\ R' = [x \in DOMAIN R \cup rd |-> IF x \in rd THEN [Get(R, x, Zero) EXCEPT ![t] = C[t][t]] ELSE R[x]]

Begin(n) == LET S == 1..n IN
    /\ T' = S
    /\ C' = [t \in S |-> [u \in S |-> IF u = t THEN 1 ELSE 0]]
    /\ AF' = [t \in S |-> [u \in S |-> 0]] /\ RF' = [t \in S |-> [u \in S |-> 0]]
    /\ Rel' = Empty /\ W' = Empty /\ R' = Empty

Step(e) ==
    CASE e.k = "prog" -> Begin(e.th)
      [] e.k = "bar" -> Begin(Cardinality(T))       \* a parallel phase begins: everything before happens before it
      [] e.k = "ld" -> Load(e.t, e.a, e.m) /\ UNCHANGED <<T, W, R>>
      [] e.k = "st" -> Store(e.t, e.a, e.m) /\ UNCHANGED <<T, W, R>>
      [] e.k = "rmw" -> Rmw(e.t, e.a, e.m) /\ UNCHANGED <<T, W, R>>
      [] e.k = "fence" -> Fence(e.t, e.m) /\ UNCHANGED <<T, W, R>>
      [] e.k = "d" -> Data(e.t, SeqSet(e.r), SeqSet(e.w)) /\ UNCHANGED <<T, C, Rel, AF, RF>>
      [] e.k = "fin" -> UNCHANGED <<T, C, Rel, AF, RF, W, R>>
      [] OTHER -> FALSE     \* crash, hang, stuck

Init == l = 1 /\ T = {} /\ C = Empty /\ Rel = Empty /\ AF = Empty /\ RF = Empty /\ W = Empty /\ R = Empty
Next == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars

\* Nobody knows more about a thread than the thread itself
ClocksOK == \A t, u \in T : C[t][u] <= C[u][u]

Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
