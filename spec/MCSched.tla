------------------------------ MODULE MCSched ------------------------------
(* The scheduling algorithm as a state machine (passes that peel off leaves),  *)
(* explored for every graph of N objects; its results satisfy Sched!Verdict.   *)
(* Every graph is also emitted for replay into the implementation.             *)
EXTENDS Sched, TLC, Json
CONSTANTS N, Emit

VARIABLES g, left, order, grp, pass, todo, progress, res
vars == <<g, left, order, grp, pass, todo, progress, res>>

Kinds == {"no", "imm", "del"}
Pairs == {<<p, c>> : p \in 1..N, c \in 1..N}
Graph(f) == [n |-> N, imm |-> {e \in Pairs : f[e] = "imm"}, del |-> {e \in Pairs : f[e] = "del"}]

Leaf(o, S) == \A p \in Producers(g, o) : p \notin S
Leaves(S) == SelectSeq([k \in 1..N |-> k], LAMBDA o : o \in S /\ Leaf(o, S))

Init == /\ \E f \in [Pairs -> Kinds] : g = Graph(f)
        /\ left = 1..N /\ order = <<>> /\ grp = <<>> /\ pass = 0 /\ progress = TRUE
        /\ todo = <<>> /\ res = "run"

\* start a pass: all current leaves, in listing order
StartPass == /\ res = "run" /\ todo = <<>>
             /\ IF Leaves(left) = <<>> THEN /\ res' = "ok" /\ UNCHANGED <<todo, progress, pass>>
                ELSE IF ~progress THEN /\ res' = "refused" /\ UNCHANGED <<todo, progress, pass>>
                ELSE /\ todo' = Leaves(left) /\ progress' = FALSE /\ pass' = pass + 1 /\ UNCHANGED res
             /\ UNCHANGED <<g, left, order, grp>>
\* take one leaf unless somebody still unplaced reads it with a delay
Take == /\ res = "run" /\ todo # <<>>
        /\ LET o == Head(todo) IN
           IF \E c \in DelayedReaders(g, o) : c \in left
             THEN UNCHANGED <<left, order, grp, progress>>
             ELSE /\ left' = left \ {o} /\ order' = Append(order, o) /\ grp' = Append(grp, pass - 1) /\ progress' = TRUE
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<g, pass, res>>
Done == res # "run" /\ UNCHANGED vars
Next == StartPass \/ Take \/ Done
Spec == Init /\ [][Next]_vars

\* "no progress" is only known when a pass ends without taking a leaf; progress is tested at the next StartPass
Correct == res # "run" => Verdict(g, res, order, grp) = ""
Terminates == pass <= 2 * N + 1
EmitGraph == (Emit /\ pass = 0 /\ res = "run" /\ todo = <<>>) =>
                PrintT("BEH " \o ToJson([n |-> N, imm |-> g.imm, del |-> g.del]))
=============================================================================
