------------------------------- MODULE Params -------------------------------
(* C06: layered parameter files.  A parameter set is a function from object    *)
(* names to blocks, a block a function from entry names to entries; the entry   *)
(* "inputs" is a function from input names to [single, refs].                   *)
(* Every entry is [kind |-> "val", val] or [kind |-> "map", map], the items of a *)
(* map are [single, refs, txt]; refs is a sequence of [o, t] (owner, text).     *)
EXTENDS Integers, Sequences, FiniteSets
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Merge(f, h) == [y \in DOMAIN f \cup DOMAIN h |-> IF y \in DOMAIN h THEN h[y] ELSE f[y]]
ToFun(items) == [x \in {items[k].k : k \in 1..Len(items)} |->
                   items[CHOOSE k \in 1..Len(items) : items[k].k = x /\ \A l \in (k+1)..Len(items) : items[l].k # x].v]

WithoutRefs(refs, o) == SelectSeq(refs, LAMBDA q : q.o # o)
Cut(map, o) ==      \* connections of one block without those to o
  LET gone == {x \in DOMAIN map : map[x].single /\ Len(WithoutRefs(map[x].refs, o)) = 0 /\ Len(map[x].refs) > 0}
  IN [x \in DOMAIN map \ gone |-> [map[x] EXCEPT !.refs = WithoutRefs(@, o)]]
RemoveObj(P, o) ==
  LET Q == Drop(P, o) IN
  [n \in DOMAIN Q |-> IF "inputs" \in DOMAIN Q[n] /\ Q[n]["inputs"].kind = "map"
                      THEN Set(Q[n], "inputs", [kind |-> "map", map |-> Cut(Q[n]["inputs"].map, o)])
                      ELSE Q[n]]

Refused == [ok |-> FALSE, P |-> <<>>]
Good(P) == [ok |-> TRUE, P |-> P]
RECURSIVE RemoveAll(_, _)
RemoveAll(P, names) ==
  IF names = <<>> THEN Good(P)
  ELSE IF Head(names) \notin DOMAIN P THEN Refused
  ELSE RemoveAll(RemoveObj(P, Head(names)), Tail(names))

Applies(op, idx) == op.idx = -1 \/ op.idx = idx
\* op of a further file: kind remove (names) / override (name, block) / add (name, block)
Step(st, op, idx) ==
  IF ~st.ok \/ ~Applies(op, idx) THEN st
  ELSE CASE op.kind = "remove" -> RemoveAll(st.P, op.names)
         [] op.kind = "override" -> IF op.name \notin DOMAIN st.P THEN Refused
                                    ELSE Good(Set(st.P, op.name, Merge(st.P[op.name], op.block)))
         [] op.kind = "add" -> IF op.name \in DOMAIN st.P THEN Refused ELSE Good(Set(st.P, op.name, op.block))
         [] op.kind = "cmd2" -> IF op.name \notin DOMAIN st.P THEN Refused
                                ELSE Good(Set(st.P, op.name, Set(st.P[op.name], op.entry, op.value)))
         [] op.kind = "cmd3" -> IF op.name \notin DOMAIN st.P THEN Refused
                                ELSE IF op.entry \notin DOMAIN st.P[op.name] THEN Refused
                                ELSE IF st.P[op.name][op.entry].kind # "map" THEN Refused
                                ELSE Good(Set(st.P, op.name, Set(st.P[op.name], op.entry,
                                     [kind |-> "map", map |-> Set(st.P[op.name][op.entry].map, op.item, op.value)])))

\* what the property says about one step, independently of Step
References(P, n, o) == "inputs" \in DOMAIN P[n] /\ P[n]["inputs"].kind = "map" /\
  \E x \in DOMAIN P[n]["inputs"].map : \E k \in 1..Len(P[n]["inputs"].map[x].refs) : P[n]["inputs"].map[x].refs[k].o = o
Named(op) == IF op.kind = "remove" THEN {op.names[k] : k \in 1..Len(op.names)} ELSE {op.name}
Promise(st, op, idx, st2) ==
  IF ~Applies(op, idx) THEN st2 = st
  ELSE IF ~st.ok THEN ~st2.ok
  ELSE IF \E n \in Named(op) : (n \in DOMAIN st.P) = (op.kind = "add") THEN ~st2.ok
  ELSE /\ st2.ok
       /\ \A n \in Named(op) : (n \in DOMAIN st2.P) = (op.kind # "remove")
       /\ \A n \in DOMAIN st.P \ Named(op) : n \in DOMAIN st2.P
                 /\ (op.kind # "remove" => st2.P[n] = st.P[n])
                 /\ \A e \in DOMAIN st.P[n] \ {"inputs"} : st2.P[n][e] = st.P[n][e]
       /\ DOMAIN st2.P \subseteq DOMAIN st.P \cup Named(op)
       /\ op.kind = "remove" => \A n \in DOMAIN st2.P, o \in Named(op) : ~References(st2.P, n, o)
       /\ op.kind = "override" => \A e \in DOMAIN st.P[op.name] \cup DOMAIN op.block :
             st2.P[op.name][e] = IF e \in DOMAIN op.block THEN op.block[e] ELSE st.P[op.name][e]
=============================================================================
