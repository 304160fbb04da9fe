---------------------------------- MODULE TecsPerm ----------------------------------
(* Permissions of lock types (C27).  A lock type has a list of permissions; each is a *)
(* sequence of strings: its kind, R W (followed by components), RA WA AR.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Comps,     \* the components of the world
          Globals    \* those of them that are global

Kind(x) == x[1]
Names(x) == {x[i] : i \in 2..Len(x)}
ReadOk(p, c) == \E i \in DOMAIN p : Kind(p[i]) \in {"RA", "WA", "AR"} \/ (Kind(p[i]) \in {"R", "W"} /\ c \in Names(p[i]))
WriteOk(p, c) == \E i \in DOMAIN p : Kind(p[i]) \in {"WA", "AR"} \/ (Kind(p[i]) = "W" /\ c \in Names(p[i]))
ArOk(p) == \E i \in DOMAIN p : Kind(p[i]) = "AR"

\* A lock with the permissions p can be used as one with q.
Covers(p, q) == /\ \A c \in Comps : (ReadOk(q, c) => ReadOk(p, c)) /\ (WriteOk(q, c) => WriteOk(p, c))
                /\ ArOk(q) => ArOk(p)

Ent(cs) == \A i \in DOMAIN cs : cs[i] \in Comps \ Globals
Glo(cs) == \A i \in DOMAIN cs : cs[i] \in Globals
\* The operations a program can contain: o on the components cs (q: the permissions asked for), with a lock type that has
\* the permissions p; dyn: it is a dynamic lock.
Allowed(o, cs, q, p, dyn) ==
    CASE o \in {"get", "getc", "prev"} -> Ent(cs) /\ ReadOk(p, cs[1])
      [] o \in {"getm", "set", "setref", "setnone"} -> Ent(cs) /\ WriteOk(p, cs[1])
      [] o \in {"gget", "ggetc", "gprev"} -> Glo(cs) /\ ReadOk(p, cs[1])
      [] o \in {"ggetm", "gset", "gsetref", "gsetnone"} -> Glo(cs) /\ WriteOk(p, cs[1])
      [] o \in {"getcm", "prevm", "ggetcm", "gprevm"} -> FALSE      \* writing to what is constant
      [] o \in {"has", "had", "list", "listprev"} -> Ent(cs)
      [] o \in {"ghas", "ghad"} -> Glo(cs)
      [] o \in {"unset", "entryunset"} -> Ent(cs) /\ ArOk(p)
      [] o = "gunset" -> Glo(cs) /\ ArOk(p)
      [] o \in {"watch", "stop", "obsstop"} -> (\A i \in DOMAIN cs : cs[i] \in Comps) /\ ArOk(p)
      [] o = "poll" -> \A i \in DOMAIN cs : cs[i] \in Comps
      [] o \in {"new", "destroy", "destroyc", "entrydestroy"} -> ArOk(p)
      [] o \in {"exists", "existed", "entities", "prevs", "copy", "uc", "inst"} -> TRUE
      [] o \in {"conv", "arg", "subset", "dyn"} -> Covers(p, q)
      [] o = "try" -> dyn                                            \* decided at run time: C20
      [] o = "trytype" -> dyn
\* Uses that need not be possible, but must not be when the permission is missing.
AtMost(o, cs, q, p, dyn) ==
    CASE o = "getx" -> Ent(cs) /\ WriteOk(p, cs[1])
      [] o = "ggetx" -> Glo(cs) /\ WriteOk(p, cs[1])
      [] OTHER -> FALSE
OneSided == {"getx", "ggetx"}

Basic == {<<o, <<c>>>> : o \in {"get", "getm", "prev", "set", "unset", "gget", "ggetm", "gset", "gunset"}, c \in Comps} \cup {<<o, <<>>>> : o \in {"new", "destroy", "watch"}}
=====================================================================================
