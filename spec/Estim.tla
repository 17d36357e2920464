-------------------------------- MODULE Estim --------------------------------
(* C36.  Objects which estimate quantities from the signals of a running simulation.             *)
(*  - the optical gain follows  g <- g (1 - (1 - d/c) k)  at the steps where both demodulated    *)
(*    signals are new and there is a command; the gain given out never exceeds one;              *)
(*  - the gain optimiser acts every `period` steps once it has seen two frames; between those    *)
(*    steps nothing changes; the new gain of a mode is the best of the grid for its pseudo open  *)
(*    loop signal, approached by the allowed fraction, scaled by the change of the optical gain  *)
(*    and the safety factor, and never above the largest stable gain;                            *)
(*  - the modes of a field are its least squares coefficients;                                   *)
(*  - the screen of a cube is the weighted mean of the two frames around the time;               *)
(*  - the spot monitor sums the pixels of all subapertures.                                      *)
EXTENDS Integers, Sequences, Vec
Near(a, b, tol) == Abs(a - b) <= tol

\* optical gain in units of 1 / 8^5; k in quarters, d = r c / 2
OneG == 32768
OGNext(g, k, r) == (g * (8 - (2 - r) * k)) \div 8
OGOut(g) == IF g > OneG THEN OneG ELSE g

\* gain optimiser, gains in units of 1e-6; inc, safe in quarters; og in quarters (list of those seen)
Due(t, period) == t >= period /\ t % period = 0
Cand(cap, n, j) == (cap * j) \div n
Ratio(x, og) == IF Len(og) < 2 THEN x ELSE (x * og[Len(og)]) \div og[Len(og) - 1]
Step(cfg, prev, cand, og) == (Ratio(IF cfg.limit THEN prev + (cfg.inc * (cand - prev)) \div 4 ELSE cand, og) * cfg.safe) \div 4
NewGain(cfg, cap, prev, j, og) == LET x == Step(cfg, prev, Cand(cap, cfg.n, j), og) IN IF x > cap THEN cap ELSE x

\* least squares coefficients m (in units of 1/sc) of a field on a basis: the residual is orthogonal to all modes
Residual(B, f, m, sc) == [p \in 1..Len(f) |-> f[p] * sc - Sum([k \in 1..Len(B) |-> B[k][p] * m[k]])]
Fits(B, f, m, sc, tol) ==
  /\ Len(m) = Len(B)
  /\ LET r == Residual(B, f, m, sc) IN \A k \in 1..Len(B) : Abs(Dot(B[k], r)) <= tol
\* n phase - sum: the phase without its mean, in units of 1/n
NoPiston(f) == LET s == Sum(f) n == Len(f) IN [p \in 1..n |-> n * f[p] - s]

\* screen of a cube (frames at increasing times) at time t, in units of 1/(gap)
Before(ts, t) == CHOOSE j \in 1..Len(ts) : ts[j] <= t /\ \A q \in 1..Len(ts) : ts[q] <= t => ts[q] <= ts[j]
Inside(ts, t) == ts[1] <= t /\ t <= ts[Len(ts)]
Screen(ts, frames, t, p) ==     \* << numerator, denominator >>
  LET a == Before(ts, t) IN
  IF a = Len(ts) THEN <<frames[a][p], 1>>
  ELSE <<(ts[a+1] - t) * frames[a][p] + (t - ts[a]) * frames[a+1][p], ts[a+1] - ts[a]>>

SumSubaps(pix, idx, q) == Sum([s \in 1..Len(idx) |-> pix[idx[s][q] + 1]])
==============================================================================
