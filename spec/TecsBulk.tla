---------------------------------- MODULE TecsBulk ----------------------------------
(***************************************************************************)
(* Large numbers of entities.  A group is a number of entities that are    *)
(* treated alike: it is to n entities what Tecs.tla says about one.  The   *)
(* state of a group therefore is the state of one entity, and what a       *)
(* summary of n entities shows is that state n times.  Nothing here        *)
(* depends on how large n is - the guarantees of Tecs do not.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Comps == {"A", "B"}
None == -1
Gone == [A |-> None, B |-> None]

VARIABLES grp,     \* group -> [n, ex, c]: as committed
          wrk,     \* the same, as seen through the running transaction
          ty,      \* its type: AddRemove, WriteAll, ReadAll, or "" if none runs
          obs,     \* observer -> [of, q]: what it watches ("E" or a component), queue as set of <<group, type, value, how many>>
          used     \* entities that exist or were destroyed by the running transaction
vars == <<grp, wrk, ty, obs, used>>

Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Half(n, s) == (n + s - 1) \div s          \* how many of 0..n-1 are multiples of s
SumOf(S, f(_)) == LET RECURSIVE go(_)
                      go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + go(T \ {x})
                  IN go(S)
BulkInit == grp = [g \in {} |-> 0] /\ wrk = grp /\ ty = "" /\ obs = [o \in {} |-> 0] /\ used = 0

Begin(t) == ty = "" /\ ty' = t /\ wrk' = grp /\ UNCHANGED <<grp, obs, used>>

----------------------------------------------------------------------------
(* Operations.  OkXxx: how many of the group's entities accept it.         *)

New(g, n) == /\ ty = "AR" /\ g \notin DOMAIN wrk
             /\ wrk' = Put(wrk, g, [n |-> n, ex |-> TRUE, c |-> Gone])
             /\ grp' = Put(grp, g, [n |-> n, ex |-> FALSE, c |-> Gone])
             /\ used' = used + n
             /\ UNCHANGED <<ty, obs>>
\* A name for a part of a group, as long as there are no events about it.
Split(g, h, s) ==
    /\ g \in DOMAIN wrk /\ h \notin DOMAIN wrk
    /\ \A o \in DOMAIN obs : \A e \in obs[o].q : e[1] # g
    /\ LET k == Half(wrk[g].n, s)
           Cut(f) == [y \in DOMAIN f \cup {h} |-> CASE y = h -> [f[g] EXCEPT !.n = k] [] y = g -> [f[g] EXCEPT !.n = @ - k] [] OTHER -> f[y]]
       IN wrk' = Cut(wrk) /\ grp' = Cut(grp)
    /\ UNCHANGED <<ty, obs, used>>

OkWrite(g, c) == IF wrk[g].ex /\ (ty = "AR" \/ (ty = "W" /\ wrk[g].c[c] # None)) THEN wrk[g].n ELSE 0
Write(g, c, v) == /\ ty \in {"AR", "W"}
                  /\ wrk' = IF OkWrite(g, c) > 0 THEN [wrk EXCEPT ![g].c[c] = v] ELSE wrk
                  /\ UNCHANGED <<grp, ty, obs, used>>
OkChange(g) == IF wrk[g].ex THEN wrk[g].n ELSE 0
Unset(g, c) == /\ ty = "AR"
               /\ wrk' = IF OkChange(g) > 0 THEN [wrk EXCEPT ![g].c[c] = None] ELSE wrk
               /\ UNCHANGED <<grp, ty, obs, used>>
Destroy(g) == /\ ty = "AR"
              /\ wrk' = IF OkChange(g) > 0 THEN [wrk EXCEPT ![g].ex = FALSE, ![g].c = Gone] ELSE wrk
              /\ UNCHANGED <<grp, ty, obs, used>>
Watch(o, of) == ty = "AR" /\ obs' = Put(obs, o, [of |-> of, q |-> {}]) /\ UNCHANGED <<grp, wrk, ty, used>>
Drain(o) == ty # "" /\ obs' = [obs EXCEPT ![o].q = {}] /\ UNCHANGED <<grp, wrk, ty, used>>

\* The net changes of the transaction.
Change(g, of) ==
    IF of = "E" THEN IF wrk[g].ex = grp[g].ex THEN {} ELSE {<<g, IF wrk[g].ex THEN "ADDED" ELSE "REMOVED", 0>>}
    ELSE CASE wrk[g].c[of] # None /\ grp[g].c[of] = None -> {<<g, "ADDED", wrk[g].c[of]>>}
           [] wrk[g].c[of] = None /\ grp[g].c[of] # None -> {<<g, "REMOVED", grp[g].c[of]>>}
           [] OTHER -> {}
AddTo(q, x, n) == IF n = 0 THEN q
                  ELSE LET old == {e \in q : <<e[1], e[2], e[3]>> = x} IN
                       (q \ old) \cup {<<x[1], x[2], x[3], n + SumOf(old, LAMBDA e : e[4])>>}
RECURSIVE Deliver(_, _, _)
Deliver(q, of, G) ==
    IF G = {} THEN q
    ELSE LET g == CHOOSE g \in G : TRUE
             ch == Change(g, of)
         IN Deliver(IF ch = {} THEN q ELSE AddTo(q, CHOOSE x \in ch : TRUE, wrk[g].n), of, G \ {g})
Live(f) == SumOf({g \in DOMAIN f : f[g].ex}, LAMBDA g : f[g].n)
End == /\ ty # "" /\ ty' = ""
       /\ grp' = wrk
       /\ obs' = IF ty = "AR" THEN [o \in DOMAIN obs |-> [obs[o] EXCEPT !.q = Deliver(@, obs[o].of, DOMAIN wrk)]] ELSE obs
       /\ used' = Live(wrk)
       /\ UNCHANGED wrk

----------------------------------------------------------------------------
(* What can be seen.                                                       *)

In(f, g, of) == IF of = "E" THEN f[g].ex ELSE f[g].c[of] # None
\* A list: <<group, how many>>
Listed(f, of) == {<<g, f[g].n>> : g \in {g \in DOMAIN f : f[g].n > 0 /\ In(f, g, of)}}
SeenEx(f, g) == IF f[g].ex THEN f[g].n ELSE 0
SeenHas(f, g, c) == IF f[g].c[c] # None THEN f[g].n ELSE 0
SeenVal(f, g, c) == IF f[g].c[c] # None /\ f[g].n > 0 THEN {<<f[g].c[c], f[g].n>>} ELSE {}
=====================================================================================
