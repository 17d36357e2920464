------------------------------ MODULE LongExp -------------------------------
(* C20: time averages of what an object publishes, over the frames at or after a    *)
(* start time.  Times and samples are integers; averages are judged without         *)
(* division: r is the mean of n samples with sum s iff r * n = s.                     *)
EXTENDS Vec
Counts(t, start) == t >= start
Empty(n) == [n |-> 0, sum |-> Zeros(n), sq |-> Zeros(n)]
Square(v) == [k \in 1..Len(v) |-> v[k] * v[k]]
Frame(st, t, start, x, y) ==       \* x: samples, y: the same samples for the mean of squares
  IF Counts(t, start) THEN [n |-> st.n + 1, sum |-> Add(st.sum, x), sq |-> Add(st.sq, Square(y))] ELSE st
\* samples rounded to integers: |r * n - sum| <= n; no frames: the average is zero
MeanOf(st, r) == IF st.n = 0 THEN \A k \in 1..Len(r) : r[k] = 0
                 ELSE Len(r) = Len(st.sum) /\ \A k \in 1..Len(r) : Abs(r[k] * st.n - st.sum[k]) <= st.n
\* standard deviation s (population; -1: not judged) of rounded samples y with sum sy
DevOf(st, sy, s) == IF st.n = 0 THEN \A k \in 1..Len(s) : s[k] <= 0
  ELSE \A k \in 1..Len(s) : s[k] = -1 \/ Abs(s[k] * s[k] * st.n * st.n - (st.n * st.sq[k] - sy[k] * sy[k])) <= 3 * st.n * st.n * (s[k] + 1)
=============================================================================
