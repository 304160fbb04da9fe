----------------------------------- MODULE TecsId -----------------------------------
(* C26: entity ids.  Machine words are sequences of bytes, most significant first.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zeros(k) == [j \in 1..k |-> 0]
Drop(w, k) == SubSeq(w, k + 1, Len(w))
Take(w, k) == SubSeq(w, 1, k)

\* The identifier occupies the upper bytes of the generation
Without(g, eb) == Zeros(eb) \o Drop(g, eb)
With(g, e) == e \o Drop(g, Len(e))
Ident(g, eb) == Take(g, eb)

\* The 64-bit form
Pack(x) == Zeros(8 - Len(x.g) - Len(x.i)) \o x.g \o x.i
Unpack(w, gb, ib) == [g |-> SubSeq(w, 9 - gb - ib, 8 - ib), i |-> Drop(w, 8 - ib)]

Null(x) == x.g = Zeros(Len(x.g))

\* Numerical order of words of one length, and of entities
LessW(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
Less(x, y) == LessW(x.i, y.i) \/ (x.i = y.i /\ LessW(x.g, y.g))
===============================================================================
