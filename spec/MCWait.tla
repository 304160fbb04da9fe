---------------------------------- MODULE MCWait ----------------------------------
(* Explores TecsWait with commands of several threads and eager internal steps; emits every transition as a scenario. *)
EXTENDS TecsWait, Json

CONSTANTS Threads, TypeNames, AccSets, Inst,
          Emitting   \* "no", "all", "woken": only what happens around a start that waits again, for something else than before,
                     \* or "held": only starts that must not wait, while a commit is waiting
AllC == {"A", "B", "C", "G", "H"}
TypeTab == [AR |-> [r |-> AllC, w |-> AllC, ar |-> TRUE], WA |-> [r |-> AllC, w |-> AllC, ar |-> FALSE], RA |-> [r |-> AllC, w |-> {}, ar |-> FALSE],
            N |-> [r |-> {}, w |-> {}, ar |-> FALSE],
            rA |-> [r |-> {"A"}, w |-> {}, ar |-> FALSE], wA |-> [r |-> {"A"}, w |-> {"A"}, ar |-> FALSE],
            rB |-> [r |-> {"B"}, w |-> {}, ar |-> FALSE], wB |-> [r |-> {"B"}, w |-> {"B"}, ar |-> FALSE],
            rAB |-> [r |-> {"A", "B"}, w |-> {}, ar |-> FALSE], wAB |-> [r |-> {"A", "B"}, w |-> {"A", "B"}, ar |-> FALSE],
            wArB |-> [r |-> {"A", "B"}, w |-> {"A"}, ar |-> FALSE], rAwB |-> [r |-> {"A", "B"}, w |-> {"B"}, ar |-> FALSE],
            wAGrC |-> [r |-> {"A", "C", "G"}, w |-> {"A", "G"}, ar |-> FALSE], rAGH |-> [r |-> {"A", "G", "H"}, w |-> {}, ar |-> FALSE],
            wG |-> [r |-> {"G"}, w |-> {"G"}, ar |-> FALSE], rG |-> [r |-> {"G"}, w |-> {}, ar |-> FALSE]]

VARIABLES hist,    \* commands so far
          n,       \* threads used so far: they are interchangeable
          past     \* waiting start -> resources that have kept it waiting since it was called
mvars == <<tx, hist, n, past>>

\* The transaction of a thread has the number of the thread.
S(x) == ToString(x)
L(t) == "T" \o S(t)
Free == {t \in Threads : t \notin DOMAIN tx}
Cmd(t, s) == hist' = Append(hist, S(t) \o " " \o s)

Start(t) == \E ty \in TypeNames : \E i \in Inst :
    /\ StartCall(t, t, i, TypeTab[ty].r, TypeTab[ty].w, TypeTab[ty].ar)
    /\ Cmd(t, "start " \o L(t) \o " " \o ty \o (IF i = 0 THEN "" ELSE " " \o S(i)))
\* One structural change, or a modification of one component
Acc(t) == \E c \in AccSets :
    /\ c \in WantsW(tx[t]) \ tx[t].acc
    /\ Access(t, IF c = M THEN {M} \cup tx[t].w ELSE {c})
    /\ Cmd(t, CASE c = M -> "new " \o L(t) \o " n" \o S(Len(hist))
                [] c \in {"G", "H"} -> "gmod " \o L(t) \o " " \o c \o " 7"
                [] OTHER -> "mod " \o L(t) \o " h1 " \o c \o " 7")
Drop(t) == DropCall(t) /\ Cmd(t, "drop " \o L(t))
Command == \E t \in Threads :
    /\ t <= n + 1 /\ n' = (IF t > n THEN t ELSE n)
    /\ IF t \in DOMAIN tx THEN Is(t, "act") /\ (Acc(t) \/ Drop(t)) ELSE Start(t)

Int == \E x \in DOMAIN tx : Internal(x)
\* The resources for which y cannot start
BlockedFor(y) == UNION {IF Is(x, "act") THEN WantsW(tx[x]) \cap WantsW(tx[y])
                        ELSE (tx[x].acc \cap WantsW(tx[y])) \cup (Closed(x) \cap WantsR(tx[y])) : x \in StartBlocks(y)}
Reqs == {y \in DOMAIN tx : Is(y, "req")}
Now == [y \in Reqs |-> BlockedFor(y) \cup (IF y \in DOMAIN past THEN past[y] ELSE {})]
MInit == tx = Empty /\ hist = << >> /\ n = 0 /\ past = Empty
MNext == IF Quiet THEN Command /\ past' = Now ELSE Int /\ UNCHANGED <<hist, n, past>>
MSpec == MInit /\ [][MNext]_mvars
View == <<tx, n>>
\* The same state is visited once for every set of resources that waiting starts had to wait for before
PastView == <<tx, n, past>>
Woken == \E y \in Reqs \cap DOMAIN past : past[y] \ BlockedFor(y) # {}
\* A start that must succeed at once although a commit is waiting
Held == /\ \E x \in DOMAIN tx : Is(x, "end")
        /\ \E x \in DOMAIN tx' \ DOMAIN tx : (StartBlocks(x) = {})'

\* Each transition by a command is a scenario: the way to its state, and the command
Emit == Emitting = "no" \/ hist' = hist \/ (Emitting = "woken" /\ ~Woken) \/ (Emitting = "held" /\ ~Held) \/ PrintT("SCEN " \o ToJson(hist'))

JustifiedAtQuiet == Quiet => Justified
NoDeadlockAtQuiet == Quiet => NoDeadlock
\* C06: while x waits for the readers of c, no new reader of c starts
NoBarging == [][\A x \in DOMAIN tx \cap DOMAIN tx' :
    (tx[x].cur # None /\ tx'[x].cur = tx[x].cur) => {y \in DOMAIN tx' : tx'[y].st = "act" /\ tx'[y].i = tx'[x].i /\ tx[x].cur \in WantsR(tx'[y])} \subseteq Readers(x, tx[x].cur)]_mvars
\* C07: waiting starts are not among the reasons for waiting
Harmless == \A x \in DOMAIN tx : /\ Is(x, "req") => \A y \in StartBlocks(x) : ~Is(y, "req")
                                 /\ Is(x, "end") /\ tx[x].cur # None => \A y \in Readers(x, tx[x].cur) : ~Is(y, "req")
===============================================================================
