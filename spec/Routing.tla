------------------------------- MODULE Routing -------------------------------
(* C26: selections, insertions, element-wise operations, combinations.  Positions   *)
(* count from 0; NONE stands for an omitted slice bound.                             *)
EXTENDS Vec
NONE == 99
Norm(k, n) == IF k < 0 THEN k + n ELSE k
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* positions of start:stop:step in a vector of n elements, in order
SliceSeq(n, a, b, s) ==
  LET st == IF s = NONE THEN 1 ELSE s
      lo == IF a = NONE THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE Clip(Norm(a, n), IF st > 0 THEN 0 ELSE -1, IF st > 0 THEN n ELSE n - 1)
      hi == IF b = NONE THEN (IF st > 0 THEN n ELSE -1) ELSE Clip(Norm(b, n), IF st > 0 THEN 0 ELSE -1, IF st > 0 THEN n ELSE n - 1)
      cnt == IF st > 0 THEN (IF hi > lo THEN (hi - lo + st - 1) \div st ELSE 0) ELSE (IF lo > hi THEN (lo - hi - st - 1) \div (-st) ELSE 0)
  IN [k \in 1..cnt |-> lo + (k - 1) * st]
\* a selector: [k |-> "idx", v |-> <<positions>>] or [k |-> "slice", v |-> <<a, b, s>>] or [k |-> "all"]
Positions(sel, n) == CASE sel.k = "idx" -> [q \in 1..Len(sel.v) |-> Norm(sel.v[q], n)]
                       [] sel.k = "slice" -> SliceSeq(n, sel.v[1], sel.v[2], sel.v[3])
                       [] sel.k = "all" -> [q \in 1..n |-> q - 1]
Select(sel, x) == LET p == Positions(sel, Len(x)) IN [q \in 1..Len(p) |-> x[p[q] + 1]]
RECURSIVE Put(_, _, _)
Put(out, pos, v) == IF pos = <<>> THEN out ELSE Put([out EXCEPT ![Head(pos) + 1] = Head(v)], Tail(pos), Tail(v))
RECURSIVE InsertAll(_, _, _)
InsertAll(out, pairs, x) == IF pairs = <<>> THEN out
  ELSE InsertAll(Put(out, Positions(Head(pairs)[2], Len(out)), Select(Head(pairs)[1], x)), Tail(pairs), x)
\* element-wise operations, results in eighths
Bc(c, n) == IF Len(c) = 1 THEN Repeat(c[1], n) ELSE c
Quot(x, y) == IF y > 0 THEN (8 * x) \div y ELSE -((8 * x) \div (-y))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Apply(op, x, y) == CASE op = "mul" -> 8 * x * y [] op = "div" -> Quot(x, y) [] op = "sum" -> 8 * (x + y) [] op = "sub" -> 8 * (x - y)
                     [] op = "max" -> 8 * Max2(x, y) [] op = "min" -> 8 * Min2(x, y)
Elem(op, x, c) == LET y == Bc(c, Len(x)) IN [k \in 1..Len(x) |-> Apply(op, x[k], y[k])]
\* second value shorter or remapped: missing elements count as 0 (1 for a division)
Fill(op, n) == Repeat(IF op = "div" THEN 1 ELSE 0, n)
Widen(op, n, how, map, y) == CASE how = "same" -> Bc(y, n) [] how = "short" -> Put(Fill(op, n), [k \in 1..Len(y) |-> k - 1], y)
                               [] how = "remap" -> Put(Fill(op, n), map, y)
\* mirror commands: lo, ho split by the declared sizes
Combine(lo, f, ho, pp, dl, od, kv, A) ==
  LET dh1 == od[1] - dl[1] - 1 dh2 == od[2] - dl[2]
      lo1 == SubSeq(lo, 1, dl[1]) lo3 == SubSeq(lo, dl[1] + dl[2] + 1, dl[1] + dl[2] + dl[3])
      a == lo1 \o f \o SubSeq(ho, 1, dh1)
      b == Zeros(dl[1]) \o Mul(Bc(kv, dl[3]), lo3) \o Zeros(od[1] - dl[1] - dl[3])
      c == IF pp = <<>> THEN Zeros(od[1]) ELSE MatVec(A, pp)
  IN <<Add(Add(a, b), c), SubSeq(ho, dh1 + 1, dh1 + dh2), lo3 \o SubSeq(ho, dh1 + dh2 + 1, Len(ho))>>
\* linear combination: high order, focus (or none), lift (or none), natural stars
Linear(lgs, focus, lift, ngs, psi, coeff) ==
  LET a == [k \in 1..Len(lgs) |-> IF k <= 2 THEN ngs[k] ELSE IF k = 3 /\ focus # <<>> THEN focus[1] ELSE lgs[k]]
      b == IF psi = NONE THEN a ELSE [k \in 1..Len(a) |-> IF k \in 3..5 THEN a[k] - ngs[k] * coeff[k-2] ELSE a[k]]
      c == IF psi = NONE THEN b ELSE [k \in 1..Len(b) |-> IF k \in (psi+1)..(psi+3) THEN ngs[k - psi + 2] ELSE b[k]]
  IN c \o lift
=============================================================================
