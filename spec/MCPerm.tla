----------------------------------- MODULE MCPerm -----------------------------------
(* C27 as invariants over all permission lists of up to MaxLen items, which are also  *)
(* the lists tried with the compiler.                                                 *)
EXTENDS TecsPerm, Json, SequencesExt
CONSTANTS MaxLen, Third     \* Third: the lists of up to this length take part in triples
Items == {<<k>> \o SetToSeq(S) : k \in {"R", "W"}, S \in SUBSET Comps} \cup {<<"RA">>, <<"WA">>, <<"AR">>}
Lists(n) == UNION {[1..k -> Items] : k \in 0..n}
All == TLCEval(Lists(MaxLen))
Small == TLCEval(Lists(Third))
ASSUME \A p \in All : PrintT("LIST " \o ToJson(p))
VARIABLES p, q
Init == p \in All /\ q \in All
Next == UNCHANGED <<p, q>>
May(b, x) == Allowed(b[1], b[2], <<>>, x, FALSE)

Order == Covers(p, p) /\ \A r \in Small : (Covers(p, q) /\ Covers(q, r)) => Covers(p, r)
\* A lock converts exactly if the target cannot do anything that the lock cannot.
Exact == Covers(p, q) = \A b \in Basic : May(b, q) => May(b, p)
\* More permissions in the list never take anything away, and their order does not matter.
Monotone == Covers(p \o q, p) /\ Covers(p \o q, q) /\ Covers(p \o q, q \o p)
\* Modifying a component needs a permission that also reads it.
WriteReads == \A c \in Comps : (WriteOk(p, c) => ReadOk(p, c)) /\ (ArOk(p) => WriteOk(p, c))
=====================================================================================
