----------------------------------- MODULE MCBulk -----------------------------------
(* All histories of a few steps with two groups: consequences of the definitions.     *)
EXTENDS TecsBulk
CONSTANTS Steps
VARIABLES step,
          ev,     \* observer -> [base, add, rem]: what was there when it was created; all events so far
          pre     \* what was committed when the running transaction began
mvars == <<vars, step, ev, pre>>
Groups == {"g", "h"}
Names == {"o", "p"}
Count(f, of) == SumOf(Listed(f, of), LAMBDA x : x[2])
Queued(q, t) == SumOf({e \in q : e[2] = t}, LAMBDA e : e[4])

MCInit == BulkInit /\ step = 0 /\ ev = [o \in {} |-> 0] /\ pre = grp
Ops == \/ \E g \in Groups : \/ \E n \in {1, 2} : New(g, n)
                            \/ g \in DOMAIN wrk /\ \E c \in Comps : \/ \E v \in {3, 4} : Write(g, c, v)
                                                                    \/ Unset(g, c)
                            \/ g \in DOMAIN wrk /\ Destroy(g)
       \/ ty # "" /\ "g" \in DOMAIN wrk /\ Split("g", "h", 2)
MCNext == /\ step < Steps /\ step' = step + 1
          /\ \/ \E t \in {"AR", "W", "R"} : Begin(t) /\ pre' = grp /\ UNCHANGED ev
             \/ Ops /\ UNCHANGED <<ev, pre>>
             \/ \E o \in Names, of \in {"E", "A"} : o \notin DOMAIN obs /\ Watch(o, of) /\ ev' = Put(ev, o, [base |-> Count(grp, of), add |-> 0, rem |-> 0]) /\ UNCHANGED pre
             \/ \E o \in DOMAIN obs : obs[o].q # {} /\ Drain(o) /\ UNCHANGED pre
                   /\ ev' = [ev EXCEPT ![o].add = @ + Queued(obs[o].q, "ADDED"), ![o].rem = @ + Queued(obs[o].q, "REMOVED")]
             \/ End /\ UNCHANGED <<ev, pre>>
\* Added minus removed is the difference.
Balance == ty = "" => \A o \in DOMAIN obs : Count(grp, obs[o].of) = ev[o].base + ev[o].add + Queued(obs[o].q, "ADDED") - ev[o].rem - Queued(obs[o].q, "REMOVED")
\* What does not exist has no components; nothing exists for the first time without an AddRemove transaction.
Sane == \A f \in {grp, wrk} : \A g \in DOMAIN f : f[g].ex \/ f[g].c = Gone
Structure == ty \in {"W", "R"} => \A of \in {"E"} \cup Comps : Listed(wrk, of) = Listed(grp, of)
Reading == ty = "R" => wrk = grp
Hidden == ty # "" => \A g \in DOMAIN pre : g \in DOMAIN grp /\ grp[g].c = pre[g].c /\ grp[g].ex = pre[g].ex
Enough == used >= Live(wrk)
Inv == Balance /\ Sane /\ Structure /\ Reading /\ Hidden /\ Enough
MCSpec == MCInit /\ [][MCNext]_mvars
=====================================================================================
