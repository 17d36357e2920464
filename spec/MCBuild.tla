------------------------------ MODULE MCBuild -------------------------------
(* Every reference graph over three blocks and a missing one: the depth-first   *)
(* order exists exactly when the block set is legal, and respects references.   *)
EXTENDS Build, TLC, Json
VARIABLE R
Nm == <<"a", "b", "c">>
SeqOf(s) == LET all == <<"a", "b", "c", "z">> IN SelectSeq(all, LAMBDA x : x \in s)
Blocks(r) == [k \in 1..3 |-> [name |-> Nm[k], cls |-> "C", known |-> TRUE, uid |-> k,
               pars |-> <<[arg |-> "x", form |-> "list", names |-> SeqOf(r[k]), ok |-> TRUE]>>]]
Init == R \in [1..3 -> SUBSET {"a", "b", "c", "z"}] /\ PrintT("BEH " \o ToJson([k \in 1..3 |-> SeqOf(R[k])]))
Next == UNCHANGED R
Right == LET B == Blocks(R) IN
  IF Legal(B, [C |-> {"x"}]) THEN OrderOk(B, Order(B)) ELSE Order(B) = <<"fail">>
=============================================================================
