----------------------------- MODULE Multirate ------------------------------
(* C17: multirate reconstruction and complementary fusion.                         *)
(* A mask is a tuple of booleans (which sensors are fresh); masks is the list of    *)
(* configured masks, mats the matrices in the same order, sizes the number of       *)
(* slopes per sensor.                                                              *)
EXTENDS Vec
Before(sizes, k) == Sum(SubSeq(sizes, 1, k - 1))
Block(m, sizes, k) == [r \in 1..Len(m) |-> SubSeq(m[r], Before(sizes, k) + 1, Before(sizes, k) + sizes[k])]
Known(masks, v) == \E k \in 1..Len(masks) : masks[k] = v
MatrixFor(masks, mats, v) == mats[CHOOSE k \in 1..Len(masks) : masks[k] = v]
Project(masks, mats, sizes, nm, v, slopes) ==
  [k \in 1..Len(sizes) |-> IF v[k] THEN MatVec(Block(MatrixFor(masks, mats, v), sizes, k), slopes[k]) ELSE Zeros(nm)]
\* acceptable configurations
Config(masks, rows, cols, nm, sizes) ==
  /\ Len(masks) > 0 /\ Len(masks) = Len(rows)
  /\ \A a, b \in 1..Len(masks) : masks[a] = masks[b] => a = b
  /\ \A a \in 1..Len(masks) : Len(masks[a]) = Len(sizes) /\ rows[a] = nm /\ cols[a] = Sum(sizes)
  /\ Len(sizes) > 0
\* complementary filter: frame f counts the runs from 1; slow sensor i belongs to the
\* frames divisible by N[i]; a run is acceptable iff exactly those sensors are fresh
Due(N, f) == [k \in 1..Len(N) |-> f % N[k] = 0]
Acceptable(N, f, fresh) == fresh = Due(N, f)
\* fused input, weights w (quarters, w[1] for the fast sensor), gain g (quarters)
Fused(N, g, w, f, yf, prev, ys) ==
  [c \in 1..Len(yf) |->
     ((16 + g * w[1]) * yf[c]) \div 16 - prev[c]
     + SumTo(LAMBDA k : IF f % N[k] = 0 THEN (g * w[k+1] * N[k] * ys[k][c]) \div 16 ELSE 0, Len(N))]
=============================================================================
