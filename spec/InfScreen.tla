----------------------------- MODULE InfScreen ------------------------------
(* C22: infinite phase screens.  Displacements in 1/One of a pixel.  A screen is a   *)
(* window that moves over an unbounded plane; whole pixels are shifted, the fraction   *)
(* is carried over to the next step.                                                    *)
EXTENDS Vec
One == 65536
\* truncation towards zero
Trunc(a, one) == IF a >= 0 THEN a \div one ELSE -((-a) \div one)
\* whole shifts allowed for a displacement a (a tolerance absorbs rounding next to an integer)
Whole(a, one, tol) == {Trunc(a - tol, one), Trunc(a, one), Trunc(a + tol, one)}
Carry(a, k, one) == a - one * k
\* effective displacement of a step, in quarters of a pixel: wind times elapsed time, and
\* the change of the time offset (wx: wind times offset)
Step(w, elapsed, wx, prevwx) == w * elapsed + wx - prevwx
\* the window of n x n pixels: which cell of the plane each pixel shows after a shift <<a, b>>
ShiftGrid(g, n, a, b, new(_,_)) ==
  [p \in (1..n) \X (1..n) |-> LET q == <<p[1] + a, p[2] + b>> IN
     IF q \in (1..n) \X (1..n) THEN g[q] ELSE new(q[1], q[2])]
=============================================================================
