------------------------------- MODULE Sched -------------------------------
(* Schedules of a connection graph.  A graph is a record                      *)
(*   n    number of objects 1..n, in listing order                            *)
(*   imm  set of <<producer, consumer>>: immediate inputs                     *)
(*   del  set of <<producer, consumer>>: inputs with ':-1'                    *)
EXTENDS Integers, Sequences, FiniteSets

Objs(g) == 1..g.n
Producers(g, o) == {p \in Objs(g) : <<p, o>> \in g.imm}
DelayedReaders(g, o) == {c \in Objs(g) : <<o, c>> \in g.del}

\* The objects that can be ordered at all: least fixed point of
\* "everything that must come earlier has been placed".
Ready(g, S) == {o \in Objs(g) : Producers(g, o) \subseteq S /\ DelayedReaders(g, o) \ {o} \subseteq S
                                  /\ <<o, o>> \notin g.del /\ <<o, o>> \notin g.imm}
RECURSIVE Fix(_, _)
Fix(g, S) == LET T == S \cup Ready(g, S) IN IF T = S THEN S ELSE Fix(g, T)
Schedulable(g) == Fix(g, {})

Pos(order, o) == CHOOSE k \in 1..Len(order) : order[k] = o
Elems(order) == {order[k] : k \in 1..Len(order)}

\* What is wrong with a schedule ("" = nothing).  grp is the group number of each scheduled position.
Verdict(g, res, order, grp) ==
  IF res = "refused"
    THEN IF Schedulable(g) = Objs(g) THEN "refused although an order exists" ELSE ""
  ELSE IF res # "ok" THEN "failed in another way than refusing"
  ELSE IF Len(grp) # Len(order) THEN "schedule without groups"
  ELSE IF ~(Elems(order) \subseteq Objs(g)) THEN "unknown object scheduled"
  ELSE IF Cardinality(Elems(order)) # Len(order) THEN "object scheduled twice"
  ELSE IF Schedulable(g) \ Elems(order) # {} THEN "schedulable object left out"
  ELSE IF Elems(order) \ Schedulable(g) # {} THEN "object on a cycle was scheduled"
  ELSE IF \E k \in 1..Len(order)-1 : grp[k] > grp[k+1] THEN "groups not in order"
  ELSE IF \E e \in g.imm : /\ e[1] \in Elems(order) /\ e[2] \in Elems(order)
                           /\ grp[Pos(order, e[1])] >= grp[Pos(order, e[2])]
    THEN "reader of an immediate input is not in a later group than its producer"
  ELSE IF \E e \in g.del : /\ e[1] \in Elems(order) /\ e[2] \in Elems(order)
                           /\ Pos(order, e[2]) >= Pos(order, e[1])
    THEN "reader of a delayed input does not precede its producer"
  ELSE ""
=============================================================================
