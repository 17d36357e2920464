------------------------------- MODULE Replay -------------------------------
(* C11: replay parameter files.  P is a sequence of blocks                       *)
(*   [name, store (it is the DataStore), conns, refs, rest]                      *)
(*   conns: sequence of [name, single, items], items: sequence of                *)
(*          [alias, o, out, d]   (as written alias-o.out:d; "" = not written)     *)
(*   refs: set of names used by reference parameters                             *)
(*   rest: everything else in the block, as text                                 *)
EXTENDS Integers, Sequences, FiniteSets
Names(P) == {P[k].name : k \in 1..Len(P)}
Blk(P, n) == P[CHOOSE k \in 1..Len(P) : P[k].name = n]
Elems(q) == {q[k] : k \in 1..Len(q)}
Stores(P) == {n \in Names(P) : Blk(P, n).store}
Items(b) == UNION {Elems(b.conns[k].items) : k \in 1..Len(b.conns)}
Recorded(P) == UNION {Items(Blk(P, n)) : n \in Stores(P)}
Source(P, it) == {r.alias : r \in {x \in Recorded(P) : x.o = it.o /\ x.out = it.out}}
IsRec(P, it) == Source(P, it) # {}
RefSet(b) == Elems(b.refs)
\* what a block still needs once recorded signals come from the data source
Needs(P, b) == {it.o : it \in {x \in Items(b) : ~IsRec(P, x)}} \cup RefSet(b)
RECURSIVE Closure(_, _)
Closure(P, S) == LET T == S \cup (UNION {Needs(P, Blk(P, n)) : n \in S \cap Names(P)})
                 IN IF T = S THEN S ELSE Closure(P, T)
Plain(P) == {n \in Names(P) : n \notin Stores(P) /\ n \notin {r.o : r \in Recorded(P)}}
Kept(P) == Closure(P, Plain(P))
Targeted(P, main, targets) == Closure(P, targets) \cup {main}

\* judgement of a replay file R (data_source block apart) derived from P, keeping exactly the objects K
ItemOk(P, it, new) == IF IsRec(P, it)
   THEN new.o = "data_source" /\ new.out \in Source(P, it) /\ new.d = it.d /\ new.alias = it.alias
   ELSE new = it
ConnsOk(P, b, c) == /\ Len(b.conns) = Len(c.conns)
   /\ \A k \in 1..Len(b.conns) : \E l \in 1..Len(c.conns) :
        /\ c.conns[l].name = b.conns[k].name /\ c.conns[l].single = b.conns[k].single
        /\ Len(c.conns[l].items) = Len(b.conns[k].items)
        /\ \A m \in 1..Len(b.conns[k].items) : ItemOk(P, b.conns[k].items[m], c.conns[l].items[m])
Verdict(P, K, R, src) ==
  IF Len(R) # Cardinality(Names(R)) THEN "an object appears twice"
  ELSE IF K \ Names(R) # {} THEN "an object that is still needed is missing"
  ELSE IF Names(R) \ K # {} THEN "an object that is not needed was kept"
  ELSE IF \E n \in K : Blk(R, n).rest # Blk(P, n).rest \/ RefSet(Blk(R, n)) # RefSet(Blk(P, n)) THEN "a parameter was changed"
  ELSE IF \E n \in K : ~ConnsOk(P, Blk(P, n), Blk(R, n)) THEN "a connection is wrong"
  ELSE IF Stores(P) # {} /\ (Elems(src) # {r.alias : r \in Recorded(P)} \/ Len(src) # Cardinality(Elems(src)))
       THEN "the data source does not publish exactly the recorded signals"
  ELSE ""
\* the replay file this specification expects
Pick(P, it) == IF IsRec(P, it) THEN [it EXCEPT !.o = "data_source", !.out = CHOOSE a \in Source(P, it) : TRUE] ELSE it
Rewrite(P, b) == [b EXCEPT !.conns = [k \in 1..Len(b.conns) |->
     [b.conns[k] EXCEPT !.items = [m \in 1..Len(b.conns[k].items) |-> Pick(P, b.conns[k].items[m])]]]]
Expected(P, K) == LET Q == SelectSeq(P, LAMBDA b : b.name \in K) IN [k \in 1..Len(Q) |-> Rewrite(P, Q[k])]
NoDangling(R) == \A k \in 1..Len(R) : \A x \in Needs(<<>>, R[k]) : x = "data_source" \/ x \in Names(R)
=============================================================================
