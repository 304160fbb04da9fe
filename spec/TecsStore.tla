------------------------------- MODULE TecsStore -------------------------------
(***************************************************************************)
(* The data a Tecs instance stores, as a value: which entities exist, the  *)
(* value of every component of every entity that has it, and the global    *)
(* components.  The operators below are pure functions on such values;     *)
(* Tecs.tla gives every transaction a start state and a current state of   *)
(* this kind.                                                              *)
(*                                                                         *)
(* Entity handles are opaque (strings in traces, small integers in the     *)
(* model-checking modules).                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Comps == {"A", "B", "C"}            \* component types of entities
Globs == {"G", "H"}                 \* global component types
AllComps == Comps \cup Globs
Default == [c \in AllComps |-> CASE c = "C" -> 7 [] c = "G" -> 10 [] OTHER -> 0]

Empty == << >>
Remove(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Put(f, k, v) == (k :> v) @@ f

EmptyStore == [ents |-> {}, comp |-> [c \in Comps |-> Empty], glob |-> Empty]

TypeOKStore(s) ==
    /\ \A c \in Comps : DOMAIN s.comp[c] \subseteq s.ents   \* components only on existing entities
    /\ DOMAIN s.glob \subseteq Globs

Exists(s, h) == h \in s.ents
HasAll(s, h, cs) == h \in s.ents /\ \A c \in cs : h \in DOMAIN s.comp[c]
GHasAll(s, cs) == cs \subseteq DOMAIN s.glob

Create(s, h) == [s EXCEPT !.ents = @ \cup {h}]
SetComp(s, h, c, v) == [s EXCEPT !.comp[c] = Put(@, h, v)]
UnsetComps(s, h, cs) == [s EXCEPT !.comp = [c \in Comps |-> IF c \in cs THEN Remove(@[c], {h}) ELSE @[c]]]
DestroyEnt(s, h) == [ents |-> s.ents \ {h}, comp |-> [c \in Comps |-> Remove(s.comp[c], {h})], glob |-> s.glob]
SetGlob(s, c, v) == [s EXCEPT !.glob = Put(@, c, v)]
UnsetGlobs(s, cs) == [s EXCEPT !.glob = Remove(@, cs)]

\* Members of the list of kind k: "E" all entities, otherwise the entities with component k.
Members(s, k) == IF k = "E" THEN s.ents ELSE DOMAIN s.comp[k]

\* What a commit installs: everything the transaction was entitled to write, the rest stays.
\* Component presence and entities change only with AddRemove permission.
Install(com, cur, w, ar) ==
    [ents |-> IF ar THEN cur.ents ELSE com.ents,
     comp |-> [c \in Comps |-> IF c \in w THEN cur.comp[c] ELSE com.comp[c]],
     glob |-> [c \in IF ar THEN DOMAIN cur.glob ELSE DOMAIN com.glob |->
                  IF c \in w THEN cur.glob[c] ELSE com.glob[c]]]

\* Net events of a commit for observers of kind k ("E", a component or a global), as a set of
\* <<type, handle, value>>; entity events carry value 0, global events the null handle.
NetEvents(old, new, k, null) ==
    CASE k = "E" -> {<<"REMOVED", h, 0>> : h \in old.ents \ new.ents} \cup
                    {<<"ADDED", h, 0>> : h \in new.ents \ old.ents}
      [] k \in Comps -> {<<"REMOVED", h, old.comp[k][h]>> : h \in DOMAIN old.comp[k] \ DOMAIN new.comp[k]} \cup
                        {<<"ADDED", h, new.comp[k][h]>> : h \in DOMAIN new.comp[k] \ DOMAIN old.comp[k]}
      [] OTHER -> {<<"REMOVED", null, old.glob[g]>> : g \in {k} \cap (DOMAIN old.glob \ DOMAIN new.glob)} \cup
                  {<<"ADDED", null, new.glob[g]>> : g \in {k} \cap (DOMAIN new.glob \ DOMAIN old.glob)}
Kinds == {"E"} \cup AllComps
===============================================================================
