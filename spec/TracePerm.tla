---------------------------------- MODULE TracePerm ----------------------------------
(* Judges what the compiler made of programs over lock types, by TecsPerm.            *)
EXTENDS TecsPerm, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)
VARIABLES l, lists
B(b) == IF b THEN 1 ELSE 0

\* The traits of a lock type, and of the constant type.
Trait(e) == \A c \in Comps : \A k \in 1..4 :
    e.r[c][k] = B(ReadOk(e.p, c)) /\ e.w[c][k] = B(WriteOk(e.p, c)) /\ e.a[k] = B(ArOk(e.p))
\* The read-only subset of a lock can read the same.
ReadOnly(e) == \A c \in Comps : e.r[c] = B(ReadOk(e.p, c)) /\ e.w[c] = 0 /\ e.a = 0
\* Which of the listed lock types a lock type converts to, and which it says it has the permissions of.
Matrix(e) == \A i \in DOMAIN lists : /\ e.conv[i] = B(Covers(e.p, lists[i]))
                                     /\ e.dconv[i] = B(Covers(e.p, lists[i]))
                                     /\ e.perm[i] = B(Covers(e.p, lists[i]))
Op(e) == IF e.o \in OneSided THEN e.ok = 1 => AtMost(e.o, e.cs, e.q, e.p, e.dyn = 1)
                             ELSE e.ok = B(Allowed(e.o, e.cs, e.q, e.p, e.dyn = 1))
Judge(e) == CASE e.k = "prog" -> TRUE
              [] e.k = "trait" -> Trait(e)
              [] e.k = "ro" -> ReadOnly(e)
              [] e.k = "matrix" -> Matrix(e)
              [] e.k = "op" -> Op(e)
              [] OTHER -> FALSE
Init == l = 1 /\ lists = <<>>
Next == l <= N /\ LET e == Trace[l] IN (Judge(e) = TRUE) /\ lists' = (IF e.k = "prog" THEN e.lists ELSE lists) /\ l' = l + 1
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
=====================================================================================
