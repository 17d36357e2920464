----------------------------- MODULE MCConnect ------------------------------
(* Making the connections one reference at a time, as an input that receives    *)
(* items in turn: the final contents are the flattened declaration, whatever     *)
(* interleaving of inputs, and the run is refused iff some connection is wrong.  *)
EXTENDS Connect, TLC, Json
VARIABLES refs, opt, single, left, got, refused
Src == [isdata |-> FALSE, type |-> "", declared |-> <<>>, ins |-> <<>>, conns |-> <<>>,
        outs |-> <<[name |-> "v", type |-> "BaseValue", count |-> 0],
                   [name |-> "one", type |-> "BaseValue", count |-> 1],
                   [name |-> "l", type |-> "BaseValue", count |-> 2],
                   [name |-> "e", type |-> "Layer", count |-> 0]>>]
Data == [isdata |-> TRUE, type |-> "BaseValue", declared |-> <<>>, ins |-> <<>>, conns |-> <<>>, outs |-> <<>>]
AllRefs == [o : {"s", "z"}, out : {"v", "one", "l", "e", "nope", ""}] \cup {[o |-> "d", out |-> ""], [o |-> "d", out |-> "v"]}
Objs == [s |-> Src, d |-> Data,
         r |-> [isdata |-> FALSE, type |-> "", declared |-> <<>>, outs |-> <<>>,
                ins |-> <<[name |-> "x", single |-> single, opt |-> opt, type |-> "BaseValue"]>>,
                conns |-> IF refs = <<>> THEN <<>> ELSE <<[name |-> "x", form |-> IF Len(refs) = 1 THEN "one" ELSE "list", refs |-> refs]>>]]
Init == /\ \E n \in 0..2 : refs \in [1..n -> AllRefs]
        /\ opt \in BOOLEAN /\ single \in BOOLEAN
        /\ left = refs /\ got = <<>> /\ refused = FALSE
        /\ PrintT("BEH " \o ToJson([refs |-> refs, opt |-> opt, single |-> single]))
Next == /\ left # <<>> /\ ~refused
        /\ LET r == Head(left) IN
           IF RefOk(Objs, r) /\ IsA(TypeOf(Objs, r), "BaseValue")
           THEN got' = got \o ItemsOf(Objs, r) /\ refused' = FALSE
           ELSE got' = got /\ refused' = TRUE
        /\ left' = Tail(left) /\ UNCHANGED <<refs, opt, single>>
Final == left = <<>> \/ refused
Agree == Final => LET r == refused \/ (single /\ (Len(got) > 1 \/ (Len(got) = 0 /\ ~opt)))
                  IN (Ok(Objs) <=> ~r) /\ (~r => got = Received(Objs, "r", "x"))
=============================================================================
