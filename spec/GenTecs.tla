---------------------------------- MODULE GenTecs ----------------------------------
(***************************************************************************)
(* Small-scope generator: starting from a fixed committed state, every     *)
(* sequence of MaxOps operations of one transaction (of every type in      *)
(* TypeNames) that Tecs allows, printed as a program for the driver.       *)
(***************************************************************************)
EXTENDS MCTecs

CONSTANT Extra     \* further (invalid) handle expressions to use

Base == [ents |-> {"h1", "h2"},
         comp |-> [c \in Comps |-> CASE c = "A" -> ("h1" :> 1) @@ ("h2" :> 3)
                                     [] c = "B" -> ("h1" :> 2)
                                     [] OTHER -> Empty],
         glob |-> ("G" :> 4)]
Prologue == <<"1 start L1 AR", "1 new L1 h0", "1 new L1 h1", "1 set L1 h0 B 9", "1 drop L1",
              "1 start L2 AR", "1 set L2 h1 A 1", "1 set L2 h1 B 2", "1 destroy L2 h0", "1 new L2 h2",
              "1 set L2 h2 A 3", "1 gset L2 G 4", "1 drop L2">>

GInit ==
    /\ ins = [i \in {0} |-> [NewInstance(1) EXCEPT !.com = Base]]
    /\ \E ty \in TypeNames :
          LET P == TypeTab[ty] IN
          /\ tx = (1 :> [i |-> 0, th |-> 1, n |-> "L10", r |-> P.r, w |-> P.w, ar |-> P.ar, st |-> "act", snap |-> Base, cur |-> Base,
                         nb |-> 0, lo |-> 0, rem |-> NoRem, id |-> 1, nest |-> "no"])
          /\ lk = ("L10" :> Lock(1, P.r, P.w, P.ar, TRUE))
          /\ hist = Prologue \o <<"1 start L10 " \o ty>>
    /\ used = {"h0", "h1", "h2"} /\ vw = Empty /\ ob = Empty /\ ids = {1} /\ maxid = 1
    /\ nops = 0 /\ ntx = 1

\* MaxEnts leaves room for one new entity; the handles of the driver are named by their order.
GKnown == used \cup {NullH} \cup Extra
GOp == \E n \in DOMAIN lk :
        \/ /\ lk[n].ar /\ Cardinality(used) < 4
           /\ LET h == "h" \o S(Cardinality(used)) IN Do(n, "new", h) /\ NewOk(n, h, 1)
        \/ \E h \in GKnown : MEnt(n, h)
        \/ MGlob(n) \/ MDerive(n) \/ MList(n) \/ MView(n) \/ MObs(n)
GNext == IF nops < MaxOps THEN GOp
         ELSE /\ DOMAIN tx # {}
              /\ tx' = Empty /\ UNCHANGED <<ins, lk, used, vw, ob, ids, maxid, hist, nops, ntx>>
GEmit == DOMAIN tx = {} => PrintT("PROGRAM " \o ToJson(hist))
===============================================================================
