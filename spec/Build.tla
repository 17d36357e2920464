------------------------------- MODULE Build --------------------------------
(* C07: construction of the configured objects.                                *)
(* blocks: sequence (listing order) of [name, cls, known, uid, tag, okfile,     *)
(* pars]; pars: sequence of [arg, form, v, names].                              *)
(*   form = "val": the argument is the value v                                  *)
(*   form = "ref"/"list"/"dict": the argument is the object(s) named in names   *)
(*   form = "file": value v restored from calibration files (okfile: they exist)*)
EXTENDS Integers, Sequences, FiniteSets
Index(B, n) == CHOOSE k \in 1..Len(B) : B[k].name = n
NameSet(B) == {B[k].name : k \in 1..Len(B)}
Pars(b) == {b.pars[k] : k \in 1..Len(b.pars)}
RefNames(b) == UNION {{p.names[k] : k \in 1..Len(p.names)} : p \in Pars(b)}
Needs(B) == {<<B[k].name, x>> : k \in 1..Len(B), x \in NameSet(B)} \cap
            UNION {{<<B[k].name, x>> : x \in RefNames(B[k])} : k \in 1..Len(B)}
RECURSIVE Peel(_, _)
Peel(ns, E) ==      \* drop names all of whose needs are dropped
  LET free == {n \in ns : ~\E e \in E : e[1] = n /\ e[2] \in ns} IN
  IF free = {} THEN ns ELSE Peel(ns \ free, E)
Acyclic(B) == Peel(NameSet(B), Needs(B)) = {}
BlockOk(B, args, b) ==
  /\ b.known
  /\ \A p \in Pars(b) : p.arg \in args[b.cls] /\ p.ok
  /\ RefNames(b) \subseteq NameSet(B)
Legal(B, args) == /\ \A k \in 1..Len(B) : BlockOk(B, args, B[k])
                  /\ Acyclic(B)
\* the depth-first order over references, in listing order, or <<>> when it cannot be given
RECURSIVE Visit(_, _, _, _)
RECURSIVE VisitAll(_, _, _, _)
VisitAll(B, todo, done, depth) ==
  IF todo = <<>> \/ done = <<"fail">> THEN done
  ELSE VisitAll(B, Tail(todo), Visit(B, Head(todo), done, depth), depth)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Visit(B, n, done, depth) ==
  IF \E k \in 1..Len(done) : done[k] = n THEN done
  ELSE IF n \notin NameSet(B) \/ depth > Len(B) THEN <<"fail">>
  ELSE LET b == B[Index(B, n)]
           d == VisitAll(B, Cat([k \in 1..Len(b.pars) |-> b.pars[k].names]), done, depth + 1)
       IN IF d = <<"fail">> THEN d ELSE Append(d, n)
Order(B) == VisitAll(B, [k \in 1..Len(B) |-> B[k].name], <<>>, 0)
OrderOk(B, o) == /\ Len(o) = Len(B) /\ {o[k] : k \in 1..Len(o)} = NameSet(B)
                 /\ \A e \in Needs(B) : \E i, j \in 1..Len(o) : i < j /\ o[i] = e[2] /\ o[j] = e[1]
=============================================================================
