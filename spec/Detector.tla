------------------------------- MODULE Detector -------------------------------
(* From integrated light to detector frame (C34).  A configuration d:                         *)
(*   bin, qe (quarters), bg, dk (levels, quarters; on flags bgn, dkn), cte (on; cl, cr: square  *)
(*   matrices in quarters), cic, ph, ex, ro (noises on), delta (excess), ro level (quarters),   *)
(*   em gain, gains (quarters, <<>> if none), g16 (ADU gain in 16ths), bias.                    *)
(* All pixel values are integers in units of 1/K.  Random draws are given: their parameters     *)
(* must be the declared ones, their values are used.                                            *)
EXTENDS Vec, TLC
K == 4096
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* light of each binned pixel of an nx x ny frame (rows of length nx)
Binned(a, nx, ny, b) ==
  [p \in 1..((nx \div b) * (ny \div b)) |->
     LET r == (p - 1) \div (nx \div b)
         c == (p - 1) % (nx \div b)
     IN Sum([q \in 1..(b * b) |-> a[((((r * b) + ((q - 1) \div b)) * nx) + (c * b)) + ((q - 1) % b) + 1]])]
Charge(a, d) == LET b == Binned(a, d.nx, d.ny, d.bin) IN [p \in 1..Len(b) |-> b[p] * d.qe * (K \div 4)]
Level(d) == (IF d.bgn THEN d.bg ELSE 0) + (IF d.dkn THEN d.dk ELSE 0)
Lit(v, d) == [p \in 1..Len(v) |-> v[p] + (Level(d) * (K \div 4))]
\* charge transfer: L v R, with n x n matrices in quarters
Transfer(v, d) ==
  LET n == d.nx \div d.bin
      m(q, r, c) == q[((r - 1) * n) + c]
      lv == TLCEval([p \in 1..(n * n) |-> LET r == ((p - 1) \div n) + 1  c == ((p - 1) % n) + 1 IN Sum([k \in 1..n |-> m(d.cl, r, k) * (m(v, k, c) \div 16)])])
  IN [p \in 1..(n * n) |-> LET r == ((p - 1) \div n) + 1  c == ((p - 1) % n) + 1 IN Sum([k \in 1..n |-> m(lv, r, k) * m(d.cr, k, c)])]
\* the frame before random draws
Mean(a, d) == LET v == Lit(Charge(a, d), d) IN IF d.cte THEN Transfer(v, d) ELSE v
\* charges generated by the clock, x in {0, 1}
Cic(v, x) == [p \in 1..Len(v) |-> v[p] + (x[p] * K)]
Poisson(x) == [p \in 1..Len(x) |-> x[p] * K]
\* amplification: the draws x (quarters) have shape delta * v and scale em
Amplified(x, d) == [p \in 1..Len(x) |-> (x[p] * (K \div 4)) \div d.delta]
\* read-out: unit normal draws x (eighths) times the level in (amplified) electrons
Gain(d) == IF d.ex THEN d.em ELSE 1
Read(v, x, d) == [p \in 1..Len(v) |-> v[p] + (x[p] * d.rl * Gain(d) * (K \div 32))]
PixelGain(v, d) == [p \in 1..Len(v) |-> Div(v[p] * d.gains[p], 4)]
\* conversion: digital units are whole, not negative with the bias, and converted back to electrons
Units(v, d) == v * d.g16                                  \* in 1/(16 K)
Halfway(v, d) == LET u == Units(v, d) IN ((2 * u) + (16 * K)) % (32 * K) = 0
Round(v, d) == LET u == Units(v, d) IN (u + (8 * K)) \div (16 * K)
Max0(x) == IF x < 0 THEN 0 ELSE x
Back(n, d) == LET k == Max0(n + d.bias) - d.bias IN (((k * 16 * (K \div d.g16)) + 0) \div Gain(d)) - (IF d.dkn THEN d.dk * (K \div 4) ELSE 0)
\* the values a converted pixel may have (rounding of exact halves is not specified)
Converted(v, d) == {Back(Round(v, d), d)} \cup (IF Halfway(v, d) THEN {Back(Round(v, d) - 1, d)} ELSE {})
\* draws q: [cic, ph, ex, ro] values as available; the frame after them, before conversion
Drawn(a, q, d) ==
  LET v1 == Mean(a, d)
      v2 == IF d.cic THEN Cic(v1, q.cic) ELSE v1
      v3 == IF d.ph THEN Poisson(q.ph) ELSE v2
      v4 == IF d.ex THEN Amplified(q.ex, d) ELSE v3
      v5 == IF d.ro THEN Read(v4, q.ro, d) ELSE v4
  IN IF Len(d.gains) > 0 THEN PixelGain(v5, d) ELSE v5
Frame(a, q, d, out) ==
  LET v == TLCEval(Drawn(a, q, d))
  IN /\ Len(out) = Len(v)
     /\ \A p \in 1..Len(v) : IF d.ph THEN out[p] \in Converted(v[p], d) ELSE out[p] = v[p]
\* parameters of the draws
PoissonMean(a, q, d) == LET v == Mean(a, d) IN IF d.cic THEN Cic(v, q.cic) ELSE v
GammaShape(a, q, d) == LET v == IF d.ph THEN Poisson(q.ph) ELSE PoissonMean(a, q, d) IN [p \in 1..Len(v) |-> IF v[p] <= 0 THEN 0 ELSE v[p] * d.delta]
=============================================================================
