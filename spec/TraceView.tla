---------------------------------- MODULE TraceView ----------------------------------
(* Judges what the real views returned (harness/viewdrv.cc) by TecsView.               *)
EXTENDS TecsView, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)
VARIABLES l, list, views, un
vars == <<l, list, views, un>>

Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Made(e, s) == views' = Put(views, e.v, s) /\ UNCHANGED <<list, un>>

All(f, s) == \A k \in DOMAIN f : k = "" \/ f[k] = s
Threw(f) == \A k \in DOMAIN f : \A i \in DOMAIN f[k] : f[k][i] = -1
EqM(m) == [q \in 1..(2 * (m + 1) * (m + 1)) |-> LET i == ((q - 1) \div 2) \div (m + 1)  j == ((q - 1) \div 2) % (m + 1) IN
              IF (i = j) = (q % 2 = 1) THEN 1 ELSE 0]
ProbeOk(e, s) ==
    /\ e.size = Len(s)
    /\ (e.empty = 1) = (s = <<>>)
    /\ All(e.fwd, s)
    /\ All(e.rev, Rev(s))
    /\ Threw(e.out)
    /\ e.m = Min(Len(s), 5) /\ e.eq = EqM(e.m)

Step(e) ==
    CASE e.k = "prog" -> list' = Iota(e.n) /\ views' = [x \in {} |-> <<>>] /\ un' = (e.un = 1)
      [] e.k = "full" -> e.ok = 1 /\ Made(e, list)
      [] e.k = "def" -> e.ok = 1 /\ Made(e, <<>>)
      [] e.k = "copy" -> e.ok = 1 /\ Made(e, views[e.f])
      [] e.k = "ctor" -> /\ un \/ (e.ok = 1) = CtorOk(list, e.x, e.y)
                         /\ IF CtorOk(list, e.x, e.y) THEN Made(e, Ctor(list, e.x, e.y)) ELSE UNCHANGED <<list, un, views>>
      [] e.k \in {"sub", "subd"} ->
            LET s == views[e.f] IN
            /\ un \/ (e.ok = 1) = SubOk(s, e.x)
            /\ IF SubOk(s, e.x) THEN Made(e, Sub(s, e.x, IF e.k = "subd" THEN 1000000 ELSE e.y)) ELSE UNCHANGED <<list, un, views>>
      [] e.k = "probe" -> ProbeOk(e, views[e.v]) /\ UNCHANGED <<list, un, views>>
      [] OTHER -> FALSE
Init == l = 1 /\ list = <<>> /\ views = [x \in {} |-> <<>>] /\ un = FALSE
Next == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
