----------------------------------- MODULE MCView -----------------------------------
(* All chains of subviews of short lists: C23's consequences as invariants, and the   *)
(* programs replayed on the code.                                                     *)
EXTENDS TecsView, Json
CONSTANTS MaxLen, Depth, Record
VARIABLES n, v, ok, prog
vars == <<n, v, ok, prog>>
Inf == 1000000
Name(k) == "V" \o ToString(k)
Num(x) == IF x = Inf THEN "max" ELSE IF x = Inf - 1 THEN "half" ELSE ToString(x)

Init ==
    /\ n \in 0..MaxLen
    /\ \/ v = Iota(n) /\ ok = TRUE /\ prog = <<"full V1">>
       \/ \E a, b \in 0..(n + 1) \cup {Inf} :
            /\ ok = CtorOk(Iota(n), a, b)
            /\ v = IF ok THEN Ctor(Iota(n), a, b) ELSE <<>>
            /\ prog = <<"ctor V1 " \o Num(a) \o " " \o Num(b)>>
Counts == 0..(Len(v) + 1) \cup {Inf, Inf - 1, -1}      \* -1: the default
Offs == 0..(Len(v) + 1) \cup {Inf, Inf - 1}
Next == /\ ok /\ Len(prog) <= Depth
        /\ \E off \in Offs, cnt \in Counts :
             /\ ok' = SubOk(v, off)
             /\ v' = IF ok' THEN Sub(v, off, IF cnt = -1 THEN Inf ELSE cnt) ELSE <<>>
             /\ prog' = Append(prog, "sub " \o Name(Len(prog)) \o " " \o Name(Len(prog) + 1) \o " " \o Num(off) \o " " \o (IF cnt = -1 THEN "def" ELSE Num(cnt)))
             /\ UNCHANGED n

\* A view is a contiguous part of the list, in order
Contiguous == Len(v) > 0 => \E a \in 1..n : a + Len(v) - 1 <= n /\ v = [i \in 1..Len(v) |-> a + i - 1]
\* Only what is beyond the end is rejected; sub-views of sub-views are sub-views of the first
Composes == ok => \A a, b, c, d \in 0..Len(v) : SubOk(v, a) /\ SubOk(Sub(v, a, b), c) =>
               Sub(Sub(v, a, b), c, d) = Sub(v, a + c, Min(d, Len(Sub(v, a, b)) - c))
RevRev == Rev(Rev(v)) = v
Emit == Record /\ (~ok \/ Len(prog) = Depth + 1) => PrintT("VPROG " \o ToJson([n |-> n, p |-> prog, ok |-> ok]))
===============================================================================
