------------------------------------ MODULE MCId ------------------------------------
(* C26 as invariants over words made of chosen bytes, and the cases run on the code.  *)
EXTENDS TecsId, Json
CONSTANTS Ib, Gb, Eb, IBytes, GBytes, EBytes
VARIABLES i, g, e
Words(k, S) == [1..k -> S]
Init == i \in Words(Ib, IBytes) /\ g \in Words(Gb, GBytes) /\ e \in Words(Eb, EBytes)
Next == UNCHANGED <<i, g, e>>
X == [i |-> i, g |-> g]
Near == {[i |-> i, g |-> [g EXCEPT ![k] = (@ + d) % 256]] : k \in 1..Gb, d \in {0, 1, 255}} \cup {[i |-> [i EXCEPT ![k] = (@ + d) % 256], g |-> g] : k \in 1..Ib, d \in {1, 255}}

Inverse == /\ Unpack(Pack(X), Gb, Ib) = X
           /\ Ident(With(g, e), Eb) = e
           /\ Without(With(g, e), Eb) = Without(g, Eb)
           /\ With(Without(g, Eb), Ident(g, Eb)) = g
Order == /\ ~Less(X, X)
         /\ \A y \in Near : (Less(X, y) \/ Less(y, X) \/ X = y) /\ ~(Less(X, y) /\ Less(y, X))
         /\ \A y, z \in Near : Less(X, y) /\ Less(y, z) => Less(X, z)
         /\ \A y \in Near : (Pack(X) = Pack(y)) = (X = y)
Emit == PrintT("CASE " \o ToJson([i |-> i, g |-> g, e |-> e]))
===============================================================================
