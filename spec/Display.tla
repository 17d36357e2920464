------------------------------- MODULE Display -------------------------------
(* C23: what a client of the display receives.  Objects are [k, a]: k is "one", "list", "none" *)
(* (no value), "fails" (cannot be copied), "stuck" (cannot be transferred) or "dark" (a field,  *)
(* shown as its phase relative to the mean of the lit pixels: a = <<amplitude, phase>>);       *)
(* a is the sequence of their arrays [s: shape, d: elements].                                  *)
EXTENDS Vec, FiniteSets
Shown(o) == IF o.k # "dark" THEN o.a
  ELSE LET A == o.a[1].d  P == o.a[2].d
           L == {j \in 1..Len(A) : A[j] > 0}
           m == SumTo(LAMBDA j : IF j \in L THEN P[j] ELSE 0, Len(A)) \div Cardinality(L)
       IN <<[s |-> o.a[1].s, d |-> [j \in 1..Len(A) |-> IF j \in L THEN P[j] - m ELSE 0]]>>
Vecs(a) == \A j \in 1..Len(a) : Len(a[j].s) = 1
Alike(a) == \A j \in 1..Len(a) : a[j].s = a[1].s
Stacked(a) == LET n == Len(a) IN [s |-> <<a[1].s[1], n>>, d |-> [j \in 1..(n * a[1].s[1]) |-> a[((j - 1) % n) + 1].d[((j - 1) \div n) + 1]]]
Dim(n) == CASE n = 0 -> "scalar" [] n = 1 -> "1d_array" [] n = 2 -> "2d_array" [] OTHER -> "nd_array"
Msg(n, t, a) == [n |-> n, t |-> t, a |-> a]
Data(name, o) ==
  CASE o.k = "fails" -> Msg(name, "error", <<>>)
    [] o.k = "none" \/ o.a = <<>> -> Msg(name, "unknown", <<>>)
    [] o.k \in {"one", "dark"} -> Msg(name, Dim(Len(o.a[1].s)), Shown(o))
    [] Len(o.a) = 1 /\ Vecs(o.a) -> Msg(name, "1d_array", o.a)
    [] Vecs(o.a) /\ Alike(o.a) -> Msg(name, "2d_array", <<Stacked(o.a)>>)
    [] OTHER -> Msg(name, "multi_data", o.a)
\* objs: the objects by name.  An image cannot be made of what is unknown or cannot be transferred.
Answer(mode, objs, name) ==
  IF mode = "image"
  THEN IF name \notin DOMAIN objs \/ objs[name].k \in {"fails", "stuck"} THEN <<>>
       ELSE <<Msg(name, "plot", IF objs[name].k = "none" THEN <<>> ELSE Shown(objs[name]))>>
  ELSE IF name \notin DOMAIN objs THEN <<Msg(name, "unknown", <<>>)>> ELSE <<Data(name, objs[name])>>
End == Msg("", "end", <<>>)
RECURSIVE Answers(_, _, _)
Answers(mode, objs, names) == IF names = <<>> THEN <<End>> ELSE Answer(mode, objs, Head(names)) \o Answers(mode, objs, Tail(names))
(* State: q (requests waiting for the next step: <<client, names>>), due (by client, the        *)
(* messages it is to receive), on (clients connected), n, n0, c0 (steps, and steps and clock at *)
(* the last report), st (reports of the speed).                                                *)
Start(clock) == [q |-> <<>>, due |-> [c \in {} |-> <<>>], on |-> {}, n |-> 0, n0 |-> 0, c0 |-> clock, st |-> <<>>]
Connect(s, c, first) == [s EXCEPT !.on = s.on \cup {c}, !.due = [d \in DOMAIN s.due \cup {c} |-> IF d = c THEN first ELSE s.due[d]]]
Ask(s, c, names) == [s EXCEPT !.q = Append(s.q, <<c, names>>)]
Gone(s, c) == [s EXCEPT !.on = s.on \ {c}]
RECURSIVE Serve(_, _, _, _)
Serve(mode, objs, q, due) ==
  IF q = <<>> THEN due
  ELSE Serve(mode, objs, Tail(q), [due EXCEPT ![q[1][1]] = @ \o Answers(mode, objs, q[1][2])])
Step(s, mode, objs, clock, info) ==
  LET s1 == [s EXCEPT !.n = s.n + 1, !.q = <<>>, !.due = Serve(mode, objs, s.q, s.due)]
  IN IF clock - s.c0 >= 1 THEN [s1 EXCEPT !.n0 = s.n + 1, !.c0 = clock, !.st = Append(s.st, <<info, ((s.n + 1 - s.n0) * 100) \div (clock - s.c0)>>)]
     ELSE s1
Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
=============================================================================
