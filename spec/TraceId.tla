----------------------------------- MODULE TraceId -----------------------------------
(* Judges the results of the real conversions, comparisons and hashes by TecsId.       *)
EXTENDS TecsId, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)
VARIABLES l, ib, gb, eb
B(b) == IF b THEN 1 ELSE 0

One(v) ==
    LET x == [i |-> v.i, g |-> v.g]  y == [i |-> v.i, g |-> With(v.g, v.e)] IN
    /\ v.without = Without(v.g, eb) /\ v.with = With(v.g, v.e) /\ v.id = Ident(v.g, eb)
    /\ v.idwith = v.e /\ v.withoutwith = Without(v.g, eb)
    /\ v.x = x /\ v.y = y
    /\ v.pack = Pack(x) /\ v.z = x /\ v.packy = Pack(y) /\ v.zy = y /\ v.same = 1
    /\ v.t = B(~Null(x)) /\ v.n = B(Null(x))
    /\ Null(v.nul) /\ v.nt = 0
Two(v) ==
    LET same == v.x = v.y IN
    /\ v.eq = B(same) /\ v.ne = B(~same)
    /\ v.lt = B(Less(v.x, v.y)) /\ v.gt = B(Less(v.y, v.x))
    /\ same => v.heq = 1
    /\ v.um = IF same THEN 1 ELSE 2
    /\ v.om = IF same THEN 1 ELSE 2
    /\ v.umx = IF same THEN 2 ELSE 1
    /\ v.omx = IF same THEN 2 ELSE 1

Step(v) == CASE v.k = "prog" -> ib' = v.ib /\ gb' = v.gb /\ eb' = v.eb
             [] v.k = "one" -> One(v) /\ UNCHANGED <<ib, gb, eb>>
             [] v.k = "two" -> Two(v) /\ UNCHANGED <<ib, gb, eb>>
             [] OTHER -> FALSE
Init == l = 1 /\ ib = 0 /\ gb = 0 /\ eb = 0
Next == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
