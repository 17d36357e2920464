-------------------------------- MODULE Turb --------------------------------
(* C21: frozen-flow layers.  Positions in quarters of a pixel.  The screen of a      *)
(* layer has the content  screen(r, c) = A * r + C(c)  up to a constant (the screens   *)
(* are stored without their mean) and possibly read from right to left.                *)
EXTENDS Vec
A == 37
C(c) == c * c
Screen(r, c, size, flip) == A * r + C(IF flip THEN size - 1 - c ELSE c)
\* new position after a displacement d, with an offset x and a window of n pixels
Advance(pos, d, x, n, size) == IF pos + d + x + 4 * n >= 4 * size THEN 0 ELSE pos + d
\* 4 times the value shown at row r, column c (from 0) of a window at p
Pixel(r, c, p, size, flip) == LET q == p \div 4 f == p % 4 IN
  (4 - f) * Screen(r, c + q, size, flip) + f * Screen(r, c + q + 1, size, flip)
\* numpy.rot90 of an n x n window, k quarter turns: element (r, c) comes from ...
RECURSIVE From(_,_,_,_)
From(r, c, n, k) == IF k % 4 = 0 THEN <<r, c>> ELSE From(c, n - 1 - r, n, (k % 4) - 1)
Shown(n, p, size, flip, k) == [q \in 1..(n * n) |-> LET s == From((q - 1) \div n, (q - 1) % n, n, k) IN Pixel(s[1], s[2], p, size, flip)]
=============================================================================
