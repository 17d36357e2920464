------------------------------- MODULE Sources -------------------------------
(* C38.  Extended sources as lists of points, PSFs as sources, values given by the user while the simulation runs,  *)
(* and the effective wind of moving targets.  Angles in micro-arcseconds, everything integer.                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
Round(a, b) == (2 * a + b) \div (2 * b)
Max2(a, b) == IF a > b THEN a ELSE b
\* spacing of the points: s10/10 lambda/D (lambda in nm, D in dm)
Spacing(lam, D, s10) == (lam * s10 * 206265) \div (D * 1000)
\* ---- discs and Gaussians on a grid of 2k points: odd coordinates, no ties
Odd(n) == {2 * k - n + 1 : k \in 0..n-1}
DiscGrid(n) == {p \in Odd(n) \X Odd(n) : p[1] * p[1] + p[2] * p[2] <= (n - 1) * (n - 1)}
\* 2^(-k/8) in 1/10^6
Eighths == <<1000000, 917004, 840896, 771105, 707107, 648420, 594604, 545254>>
Pow2(k) == IF k > 160 THEN 0 ELSE Eighths[(k % 8) + 1] \div (2 ^ (k \div 8))
\* fwhm of F spacings, F in {2, 4, 8}: the Gaussian at (a, b) half spacings over the one at (1, 1)
GaussAt(a, b, F) == Pow2(((a * a + b * b - 2) * 8) \div (F * F))
GaussGrid(n, F) == {p \in Odd(n) \X Odd(n) : GaussAt(p[1], p[2], F) >= 100000}
\* Gaussian at the middle of ring j of n up to three sigma, in 1/30000
RECURSIVE PowR(_, _)
PowR(b, k) == IF k = 0 THEN 30000 ELSE (b * PowR(b, k - 1)) \div 30000
RingBase == <<9740, 22645, 26475, 27963>>
GaussRing(j, n) == PowR(RingBase[n], (2 * j - 1) * (2 * j - 1))
\* ---- a PSF as a source: bilinear, at (x, y) in 1/1000 pixel from its first pixel
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Centre(S, rule) == IF rule = "half" THEN 500 * S ELSE 1000 * (S \div 2)
Bilin(P, y, x) ==
  LET S == Len(P)
      yy == Clamp(y, 0, 1000 * (S - 1))   xx == Clamp(x, 0, 1000 * (S - 1))
      i == Clamp(yy \div 1000, 0, S - 2)  j == Clamp(xx \div 1000, 0, S - 2)
      fy == yy - 1000 * i                 fx == xx - 1000 * j
  IN ((P[i+1][j+1] * (1000 - fx) + P[i+1][j+2] * fx) * (1000 - fy) + (P[i+2][j+1] * (1000 - fx) + P[i+2][j+2] * fx) * fy) \div 1000
\* number of points along the PSF, made odd
MaxPix(S, ps, os) == Round(S * ps, os)
OddUp(n) == IF n % 2 = 0 THEN n + 1 ELSE n
\* angle of point i (0..) of the grid over the PSF
PsfGrid(i, mp, os) == LET N == OddUp(mp) IN Round((2 * i - (N - 1)) * mp * os, 2 * (N - 1))
Recentred(P, m) ==
  LET n == Len(P)  d == (Max2(n, m) - (IF n < m THEN n ELSE m)) \div 2
  IN IF n = m THEN P
     ELSE IF m < n THEN [i \in 1..m |-> [j \in 1..m |-> P[i + d][j + d]]]
     ELSE [i \in 1..m |-> [j \in 1..m |-> IF i > d /\ i <= d + n /\ j > d /\ j <= d + n THEN P[i - d][j - d] ELSE 0]]
Null(P) == \A i, j \in 1..Len(P) : P[i][j] = 0
Updated(cur, new, crop) == IF Null(new) THEN cur ELSE IF crop THEN Recentred(new, Len(cur)) ELSE new
\* ---- coefficients of a point, 1/10^4 rad of tilt and 1/1000 rad of focus
Tilt(x, lam, D) == (((x * D) \div lam) * 7615) \div 1000
Focus(h, f, lam, D, air) == LET A == ((h - f) * ((D * D) \div 100) * 226725) \div lam IN (A * 1000) \div (h * h * air)
\* ---- values from the user: a queue, emptied at every step
Latest(q, name) == LET ks == {k \in 1..Len(q) : q[k][1] = name} IN IF ks = {} THEN 0 ELSE q[Max(ks)][2]
Known == {"a", "b"}
NoOut == [n \in Known |-> [v |-> 0, t |-> -1]]
Step(out, q, t) == [n \in Known |-> IF Latest(q, n) = 0 THEN out[n] ELSE [v |-> Latest(q, n), t |-> t]]
RECURSIVE Played(_, _, _, _)
Played(ops, out, q, t) ==       \* sequence of the outputs after every step
  IF ops = <<>> THEN <<>>
  ELSE IF Head(ops)[1] = "put" THEN Played(Tail(ops), out, Append(q, <<Head(ops)[2], Head(ops)[3]>>), t)
  ELSE LET o == Step(out, q, t) IN <<o>> \o Played(Tail(ops), o, <<>>, t + 1)
\* ---- effective wind of a layer at h for a target at H (hectometres) moving at v m/s: directions as integer vectors <<sin, cos, norm>>; 1/100 m/s
Slew(h, v, H) == Round(200 * v * h, H)
Wind(w, k) == Round(100 * w.speed * w.dir[k], w.dir[3]) + Round(Slew(w.h, w.v, w.H) * w.odir[k], w.odir[3])
\* light travel time in ns over hm hectometres
Light(hm) == hm * 333 + (hm * 564) \div 1000
===============================================================================
