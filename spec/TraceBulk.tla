---------------------------------- MODULE TraceBulk ----------------------------------
(* Judges the summaries that harness/bulkdrv.cc made of the real thing.                *)
EXTENDS TecsBulk, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)
VARIABLES l, max, batch
tvars == <<vars, l, max, batch>>
SeqSet(s) == {s[j] : j \in DOMAIN s}

\* NewEntity may fail only if the indexes run out, and must not hand out more entities than there are indexes.
MayThrow(n) == used + n + 2 * batch > max
NewOk(e) == /\ e.null = 0 /\ e.clash = 0
            /\ IF e.threw = 1 THEN MayThrow(e.n) ELSE e.made = e.n
            /\ used + e.made <= max
            /\ New(e.g, e.made)
CompOk(o, g, c) == /\ o[1] = SeenHas(wrk, g, c) /\ o[2] = SeenHas(grp, g, c)
                   /\ SeqSet(o[3]) = SeenVal(wrk, g, c) /\ SeqSet(o[4]) = SeenVal(grp, g, c)
                   /\ o[5] = 0
ObsOk(e) == /\ e.ex = SeenEx(wrk, e.g) /\ e.exd = SeenEx(grp, e.g)
            /\ CompOk(e.A, e.g, "A") /\ CompOk(e.B, e.g, "B")
\* Entities removed by the running transaction may have left null handles in its own lists.
ListOk(e) == /\ e.dup = 0 /\ e.other = 0
             /\ e.nulls = 0 \/ (e.prev = 0 /\ ty = "AR")
             /\ SeqSet(e.m) = Listed(IF e.prev = 1 THEN grp ELSE wrk, e.of)
DrainOk(e) == e.other = 0 /\ e.ord = 0 /\ SeqSet(e.m) = obs[e.o].q

Step(e) ==
    CASE e.k = "prog" -> /\ grp' = [g \in {} |-> 0] /\ wrk' = [g \in {} |-> 0] /\ ty' = "" /\ obs' = [o \in {} |-> 0] /\ used' = 0
                         /\ max' = e.max /\ batch' = e.batch
      [] e.k = "crash" -> FALSE
      [] OTHER -> /\ UNCHANGED <<max, batch>>
                  /\ CASE e.k = "begin" -> Begin(e.ty)
                       [] e.k = "end" -> End
                       [] e.k = "copies" -> e.use = e.n + 1 /\ UNCHANGED vars
                       [] e.k = "new" -> NewOk(e)
                       [] e.k = "split" -> Split(e.g, e.h, e.s)
                       [] e.k \in {"set", "setref", "mod"} -> /\ e.ok = OkWrite(e.g, e.c) /\ e.ok + e.bad = wrk[e.g].n
                                                              /\ Write(e.g, e.c, e.v)
                       [] e.k = "unset" -> e.ok = OkChange(e.g) /\ e.ok + e.bad = wrk[e.g].n /\ Unset(e.g, e.c)
                       [] e.k = "destroy" -> e.ok = OkChange(e.g) /\ e.ok + e.bad = wrk[e.g].n /\ Destroy(e.g)
                       [] e.k = "obs" -> ObsOk(e) /\ UNCHANGED vars
                       [] e.k = "list" -> ListOk(e) /\ UNCHANGED vars
                       [] e.k = "watch" -> Watch(e.o, e.of)
                       [] e.k = "drain" -> DrainOk(e) /\ Drain(e.o)
                       \* n entities, each created and destroyed: all different from each other and everything known
                       [] e.k = "churn" -> e.null = 0 /\ e.clash = 0 /\ e.alive = 0 /\ e.back = 0 /\ e.ids = 0 /\ UNCHANGED vars
                       \* readers 1..n hold the component: the commit comes after all of them, nobody sees it before
                       [] e.k = "readers" -> e.early = 0 /\ e.early2 = 0 /\ e.wrong = 0 /\ e.done = 1 /\ e.after = 2 /\ UNCHANGED vars
                       \* thread i = 0, 4, 8.. of n only reads; the others add 1 m times
                       [] e.k = "writers" -> /\ e.torn = 0 /\ e.a = e.m * (e.n - Half(e.n, 4)) /\ e.b = e.a
                                             /\ UNCHANGED vars
                       [] OTHER -> FALSE
TInit == BulkInit /\ l = 1 /\ max = 0 /\ batch = 0
TNext == l <= N /\ Step(Trace[l]) /\ l' = l + 1
Reach == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"REACHED", TLCGet(1), N>>) /\ TLCGet(1) = N + 1
===============================================================================
