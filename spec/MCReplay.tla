------------------------------ MODULE MCReplay ------------------------------
(* Every small network of three objects (two outputs each), recorded signals,    *)
(* connections and references: the expected replay file names no absent object   *)
(* and takes every recorded connection from the data source.                     *)
EXTENDS Replay, TLC, Json
VARIABLES P, targets
It(o, out, d) == [alias |-> "", o |-> o, out |-> out, d |-> d]
Sigs == {<<"a", "x">>, <<"a", "y">>, <<"b", "x">>, <<"c", "x">>}
Refs == {It(s[1], s[2], d) : s \in Sigs, d \in {0, -1}}
RecSets == {S \in SUBSET Sigs : Cardinality(S) <= 2}
SeqRec(S) == LET all == <<<<"a", "x">>, <<"a", "y">>, <<"b", "x">>, <<"c", "x">>>>
                 q == SelectSeq(all, LAMBDA z : z \in S)
             IN [k \in 1..Len(q) |-> [alias |-> "s" \o ToString(k), o |-> q[k][1], out |-> q[k][2], d |-> 0]]
Conn(q) == IF q = <<>> THEN <<>> ELSE <<[name |-> "i", single |-> Len(q) = 1, items |-> q]>>
Blocks(S, ca, cb, cc, rf) == <<
  [name |-> "main", store |-> FALSE, conns |-> <<>>, refs |-> <<>>, rest |-> "m"],
  [name |-> "a", store |-> FALSE, conns |-> Conn(ca), refs |-> <<>>, rest |-> "a"],
  [name |-> "b", store |-> FALSE, conns |-> Conn(cb), refs |-> rf, rest |-> "b"],
  [name |-> "c", store |-> FALSE, conns |-> Conn(cc), refs |-> <<>>, rest |-> "c"]>>
  \o (IF S = {} THEN <<>> ELSE <<[name |-> "store", store |-> TRUE, refs |-> <<>>, rest |-> "s",
       conns |-> <<[name |-> "input_list", single |-> FALSE, items |-> SeqRec(S)]>>]>>)
One == {<<>>} \cup {<<r>> : r \in Refs}
Two == {<<It("a", "x", 0), It("b", "x", -1)>>, <<It("a", "y", -1), It("a", "x", 0)>>, <<It("b", "x", 0), It("a", "x", 0), It("b", "x", -1)>>}
Init == /\ \E S \in RecSets, ca \in {<<>>, <<It("c", "x", -1)>>}, cb \in One \cup Two, cc \in One \cup Two,
              rf \in {<<>>, <<"a">>, <<"main">>} : P = Blocks(S, ca, cb, cc, rf)
        /\ targets \in {{"b"}, {"c"}, {"a", "c"}}
        /\ PrintT("BEH " \o ToJson([P |-> P, targets |-> SelectSeq(<<"a", "b", "c">>, LAMBDA x : x \in targets)]))
Next == UNCHANGED <<P, targets>>
Src == LET q == IF Stores(P) = {} THEN <<>> ELSE Blk(P, "store").conns[1].items IN [k \in 1..Len(q) |-> q[k].alias]
Good(K) == LET R == Expected(P, K) IN
  /\ NoDangling(R)
  /\ Verdict(P, K, R, Src) = ""
  /\ \A k \in 1..Len(R) : \A it \in Items(R[k]) : ~IsRec(P, it)
Right == /\ Good(Kept(P)) /\ Good(Targeted(P, "main", targets))
         /\ Plain(P) \subseteq Kept(P) /\ targets \subseteq Targeted(P, "main", targets)
         \* nothing superfluous: removing one more object leaves something dangling
         /\ \A n \in Kept(P) \ Plain(P) : ~NoDangling(Expected(P, Kept(P) \ {n}))
                \/ \E m \in Kept(P) \ {n} : n \in Needs(P, Blk(P, m))
=============================================================================
