-------------------------------- MODULE Vec ---------------------------------
(* Exact integer vectors and matrices (sequences of rows).  Real numbers are     *)
(* represented by integers in units fixed per trace.                             *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE SumTo(F, n - 1) + F(n)
Dot(a, b) == SumTo(LAMBDA k : a[k] * b[k], Len(a))
Add(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Sub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Mul(a, b) == [k \in 1..Len(a) |-> a[k] * b[k]]
Scale(c, a) == [k \in 1..Len(a) |-> c * a[k]]
DivBy(a, c) == [k \in 1..Len(a) |-> a[k] \div c]
Zeros(n) == [k \in 1..n |-> 0]
MatVec(m, v) == [r \in 1..Len(m) |-> Dot(m[r], v)]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
\* every element of s repeated as often as counts says
Spread(s, counts) == Flat([k \in 1..Len(s) |-> Repeat(s[k], counts[k])])
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
