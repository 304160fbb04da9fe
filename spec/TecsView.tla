---------------------------------- MODULE TecsView ----------------------------------
(***************************************************************************)
(* C23: an entity view is a sequence.  Views are made of a list, or of     *)
(* another view; everything else only looks at them.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Iota(n) == [i \in 1..n |-> i]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* subview(offset, count), count "everything" being any count that is great enough
SubOk(s, off) == off <= Len(s)
Sub(s, off, cnt) == SubSeq(s, off + 1, off + Min(cnt, Len(s) - off))
\* a view of positions start <= i < end of a list
CtorOk(s, start, end) == start <= end /\ end <= Len(s)
Ctor(s, start, end) == SubSeq(s, start + 1, end)
===============================================================================
