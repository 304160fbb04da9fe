--------------------------------- MODULE TecsNest ---------------------------------
(***************************************************************************)
(* C21: which starts are rejected.  A thread has a transaction on an       *)
(* instance from its successful start until its last lock is released, on  *)
(* whatever thread.  A start is rejected iff the thread has one on that    *)
(* instance, or has Limit of them.                                         *)
(*                                                                         *)
(* reg models how the code decides it: every thread keeps a list of the    *)
(* instances it has transactions on; a successful start adds the instance  *)
(* to the list of the thread, the end of a transaction removes it from the *)
(* list of the thread that ENDS it.  As long as transactions are ended by  *)
(* the threads that started them (CrossEnd = FALSE) this is right          *)
(* (invariant RegExact); otherwise it is not: a finding, see DESIGN.md.    *)
(*                                                                         *)
(* TLC explores the model and emits a scenario for each of its transitions.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Insts, Limit, MaxLocks, CrossEnd, Emitting

VARIABLES tx,     \* <<thread, instance>> -> number of locks of the transaction
          reg,    \* thread -> set of instances
          hist, nl
vars == <<tx, reg, hist, nl>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Remove(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
S(x) == ToString(x)
Mine(t) == {i \in Insts : <<t, i>> \in DOMAIN tx}
Rejected(t, i) == i \in Mine(t) \/ Cardinality(Mine(t)) >= Limit
\* What the code does
RegRejected(t, i) == i \in reg[t] \/ Cardinality(reg[t]) >= Limit

\* Locks are named after their transaction and their number
Name(t, i, k) == "L" \o S(t) \o "x" \o S(i) \o "n" \o S(k)
Cmd(t, s) == hist' = Append(hist, S(t) \o " " \o s)
Types == <<"rA", "wA", "AR", "N">>
Start(t, i) ==
    /\ Cmd(t, "start " \o (IF Rejected(t, i) THEN "R" \o S(Len(hist)) ELSE Name(t, i, nl)) \o " " \o (IF Len(hist) % 3 = 0 THEN "N" ELSE "rA") \o " " \o S(i))
    /\ IF Rejected(t, i) THEN UNCHANGED <<tx, reg, nl>>
       ELSE tx' = Put(tx, <<t, i>>, <<nl>>) /\ reg' = [reg EXCEPT ![t] = @ \cup {i}] /\ nl' = nl + 1
Copy(t, i) == /\ <<t, i>> \in DOMAIN tx /\ Len(tx[<<t, i>>]) < MaxLocks
              /\ Cmd(t, (IF nl % 2 = 0 THEN "copy " ELSE "ro ") \o Name(t, i, tx[<<t, i>>][1]) \o " " \o Name(t, i, nl))
              /\ tx' = [tx EXCEPT ![<<t, i>>] = Append(@, nl)] /\ nl' = nl + 1 /\ UNCHANGED reg
\* Thread u releases one of the locks
Drop(u, t, i) ==
    /\ <<t, i>> \in DOMAIN tx /\ (u # t => CrossEnd)
    /\ \E j \in DOMAIN tx[<<t, i>>] :
       /\ Cmd(u, "drop " \o Name(t, i, tx[<<t, i>>][j]))
       /\ IF Len(tx[<<t, i>>]) = 1 THEN tx' = Remove(tx, <<t, i>>) /\ reg' = [reg EXCEPT ![u] = @ \ {i}]
          ELSE tx' = [tx EXCEPT ![<<t, i>>] = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))] /\ UNCHANGED reg
    /\ UNCHANGED nl
Init == tx = [x \in {} |-> 0] /\ reg = [t \in Threads |-> {}] /\ hist = << >> /\ nl = 0
Next == \E t \in Threads, i \in Insts : Start(t, i) \/ Copy(t, i) \/ \E u \in Threads : Drop(u, t, i)
View == <<[x \in DOMAIN tx |-> Len(tx[x])], reg>>
Emit == ~Emitting \/ PrintT("SCEN " \o ToJson(hist'))

RegExact == \A t \in Threads : reg[t] = Mine(t)
DecidesRight == \A t \in Threads, i \in Insts : RegRejected(t, i) <=> Rejected(t, i)
===============================================================================
