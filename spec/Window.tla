------------------------------- MODULE Window -------------------------------
(* C15, C16: consecutive integration windows of length dt (a multiple of the      *)
(* loop step), counted from start.  Times are integers.                            *)
EXTENDS Vec
Valid(dt, loop) == dt > 0 /\ dt % loop = 0
Inside(t, start) == t >= start                       \* steps that are integrated at all
Ends(t, start, dt, loop) == Inside(t, start) /\ (t - start + loop) % dt = 0
\* accumulator: sum of the current window so far (a flat vector)
Accumulate(acc, t, start, x) == IF Inside(t, start) THEN Add(acc, x) ELSE acc
\* sum over b x b blocks of an image stored row by row, nx columns, ny rows
Binned(img, nx, ny, b) ==
  LET mx == nx \div b my == ny \div b IN
  [p \in 1..(mx * my) |-> LET r == (p - 1) \div mx c == (p - 1) % mx IN
     SumTo(LAMBDA q : img[(r * b + ((q - 1) \div b)) * nx + (c * b + ((q - 1) % b)) + 1], b * b)]
=============================================================================
