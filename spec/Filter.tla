------------------------------- MODULE Filter -------------------------------
(* C13, C14: discrete filters.  Signals are integers in units of 1/s, coefficients *)
(* and gains in units of 1/Q (Q = 4).  An IIR channel is a difference equation      *)
(*   den[last] y[k] = sum_j num[j] g[k] u[k-(last-j)] - sum_j den[j] y[k-(last-j)]    *)
(* whose coefficients are stored lowest order first.  A state-space channel is        *)
(*   x' = A x + B g u,  y = C (x' or x) + D g u.                                       *)
EXTENDS Vec
Q == 4
\* rows given with unused trailing places are aligned to the newest sample
Align(row, ord) ==
  LET n == Len(row) IN
  IF ord < n /\ (\A k \in (ord+1)..n : row[k] = 0) THEN Zeros(n - ord) \o SubSeq(row, 1, ord) ELSE row
Chan(num, den) == [num |-> num, den |-> den]
IirStart(ch) == [ist |-> Zeros(Len(ch.num)), ost |-> Zeros(Len(ch.den))]
Push(h, x) == Append(Tail(h), x)
IirNext(ch, integ, m, u, g) ==
  LET ist == Push(m.ist, u)
      no == Len(ch.den)
      old == Push(m.ost, 0)
      nc == Dot(ch.num, ist) * g                       \* units Q*Q*s
      dc == IF integ THEN Dot(ch.den, old) ELSE 0      \* units Q*s
      y == (nc - Q * dc) \div (Q * ch.den[no])
  IN [ist |-> ist, ost |-> Append(SubSeq(old, 1, no - 1), y)]
IirOut(m) == m.ost[Len(m.ost)]
\* gain of a channel = coefficient of the newest input; changing it keeps the shape
\* of the numerator (shape: numerator for unit gain, units 1/Q)
Lead(num) == num[Len(num)]
Shape(num) == IF \A k \in 1..Len(num) : num[k] = 0 THEN [num EXCEPT ![Len(num)] = Q]
              ELSE IF Lead(num) = 0 THEN num ELSE [k \in 1..Len(num) |-> (num[k] * Q) \div Lead(num)]
WithGain(shape, g) == [k \in 1..Len(shape) |-> (shape[k] * g) \div Q]
\* state space
SsrStart(ch) == Zeros(Len(ch.A))
SsrNext(ch, x, u, g) == LET w == (u * g) \div Q IN
  [r \in 1..Len(ch.A) |-> (Dot(ch.A[r], x) + ch.B[r] * w) \div Q]
SsrOut(ch, new, x, xn, u, g) == LET w == (u * g) \div Q IN (Dot(ch.C, IF new THEN xn ELSE x) + ch.D * w) \div Q
\* delay d4 in quarters of a frame; h = undelayed outputs, newest first
DelayLen(d4) == ((d4 + 3) \div 4) + 1
LineStart(d4, n) == [k \in 1..DelayLen(d4) |-> Zeros(n)]
LinePush(h, y) == <<y>> \o SubSeq(h, 1, Len(h) - 1)
Delayed(h, d4) == LET a == d4 \div 4 r == d4 % 4 IN
  IF r = 0 THEN h[a+1] ELSE [c \in 1..Len(h[1]) |-> (r * h[a+2][c] + (4 - r) * h[a+1][c]) \div 4]
=============================================================================
