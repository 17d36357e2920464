------------------------------- MODULE Slopec --------------------------------
(* Wave-front sensor signals computed from detector frames.  A frame is the vector of its *)
(* pixels (row after row); subapertures and pupils are vectors of pixel numbers.          *)
(* Signals are returned in units of 1/S, rounded down.                                    *)
EXTENDS Vec
Max(a, b) == IF a > b THEN a ELSE b
Pick(px, idx) == [k \in 1..Len(idx) |-> px[idx[k]]]
\* --- weights from the frames accumulated over a window ---------------------------------
\* per subaperture: integer weights w and the number m they are divided by
WOne(idx) == [s \in 1..Len(idx) |-> [w |-> [k \in 1..Len(idx[s]) |-> 1], m |-> 1]]
WMean(idx, acc) == [s \in 1..Len(idx) |->
    LET v == Pick(acc, idx[s])
        lo == SetMin({v[k] : k \in 1..Len(v)})
        hi == SetMax({v[k] : k \in 1..Len(v)})
    IN IF hi = lo THEN [w |-> [k \in 1..Len(v) |-> 1], m |-> 1]
       ELSE [w |-> [k \in 1..Len(v) |-> v[k] - lo], m |-> hi - lo]]
\* window: pixels (above the fainter ones of their subaperture) reaching the threshold, or opposite to one
WWindow(idx, acc, th) == [s \in 1..Len(idx) |->
    LET v == Pick(acc, idx[s])
        n == Len(v)
        lo == SetMin({v[k] : k \in 1..n})
        hi == SetMax({v[k] : k \in 1..n})
    IN IF hi = lo THEN [w |-> [k \in 1..n |-> 1], m |-> 1]
       ELSE [w |-> [k \in 1..n |-> IF v[k] - lo >= th \/ v[n + 1 - k] - lo >= th THEN 1 ELSE 0], m |-> 1]]
\* the state of the accumulation: acc (sum since the last window end, <<>>: nothing yet), w
AccInit(idx) == [acc |-> <<>>, w |-> WOne(idx)]
Accumulate(a, idx, px, t, win, th) ==
  IF win = 0 THEN a
  ELSE LET s == IF a.acc = <<>> THEN px ELSE Add(a.acc, px)
       IN IF t % win = 0 /\ t >= win
          THEN [acc |-> <<>>, w |-> IF th < 0 THEN WMean(idx, s) ELSE WWindow(idx, s, th)]
          ELSE [acc |-> s, w |-> a.w]
\* --- Shack-Hartmann: centre of gravity of every subaperture ----------------------------
\* g: [X, Y, xd (coordinates X/xd), M, md (weights in the denominator M/md)]
Cog(px, idx, w, thr, g, S) ==
  LET n == Len(idx)
      v(s) == [k \in 1..Len(idx[s]) |-> Max(px[idx[s][k]] * w[s].w[k] - thr * w[s].m, 0)]
      V == [s \in 1..n |-> v(s)]
      T == [s \in 1..n |-> Dot(V[s], g.M)]
      \* totals in units of 1/16, to be compared with each other
      Q == [s \in 1..n |-> (16 * T[s]) \div w[s].m]
      all == Sum(Q)
      dim(s) == all = 0 \/ Q[s] <= (all - 1) \div (1000 * n)
      sl(C, s) == IF dim(s) THEN 0 ELSE (S * g.md * Dot(V[s], C)) \div (g.xd * T[s])
  IN [x |-> [s \in 1..n |-> sl(g.X, s)], y |-> [s \in 1..n |-> sl(g.Y, s)]]
CogFlux(px, idx, w, F) == [s \in 1..Len(idx) |-> (F * Dot(Pick(px, idx[s]), w[s].w)) \div w[s].m]
\* --- four pupils -----------------------------------------------------------------------
Clip(px, thr) == [k \in 1..Len(px) |-> Max(px[k] - thr, 0)]
Ratio(a, b, S) == IF b = 0 THEN 0 ELSE (S * a) \div b
Pyr(px, idx, thr, norm, nf, S) ==
  LET v == Clip(px, thr)
      n == Len(idx[1])
      A == Pick(v, idx[1]) B == Pick(v, idx[2]) C == Pick(v, idx[3]) D == Pick(v, idx[4])
      tot == Sum(A) + Sum(B) + Sum(C) + Sum(D)
      q(a) == CASE norm = "mean" -> Ratio(a * n, tot, S)
                [] norm = "fixed" -> Ratio(a, nf, S)
                [] norm = "total" -> Ratio(a, tot, S)
  IN [x |-> [k \in 1..n |-> q(A[k] + B[k] - C[k] - D[k])], y |-> [k \in 1..n |-> q(B[k] + C[k] - A[k] - D[k])]]
Roof(px, idx, thr, norm, nf, S) ==
  LET v == Clip(px, thr)
      n == Len(idx[1])
      A == Pick(v, idx[1]) B == Pick(v, idx[2]) C == Pick(v, idx[3]) D == Pick(v, idx[4])
      tot == Sum(A) + Sum(B) + Sum(C) + Sum(D)
      q(a) == CASE norm = "mean" -> Ratio(a * n, tot, S)
                [] norm = "fixed" -> Ratio(a, nf, S)
                [] norm = "total" -> Ratio(a, tot, S)
  IN [x |-> [k \in 1..n |-> q(A[k] - B[k])], y |-> [k \in 1..n |-> q(D[k] - C[k])]]
PupFlux(v, idx) == [k \in 1..SetMax({Len(idx[p]) : p \in 1..Len(idx)}) |->
                     Sum([p \in 1..Len(idx) |-> IF k <= Len(idx[p]) THEN v[idx[p][k]] ELSE 0])]
\* every pixel of the four pupils (which may differ in size), relative to their mean over the rows
PyrInt(px, idx, thr, S) ==
  LET v == Clip(px, thr)
      all == Flat([p \in 1..Len(idx) |-> Pick(v, idx[p])])
      n == SetMax({Len(idx[p]) : p \in 1..Len(idx)})
      tot == Sum(all)
  IN [k \in 1..Len(all) |-> Ratio(all[k] * 4 * n, tot, S)]
\* --- one pupil -------------------------------------------------------------------------
Curv(p1, p2, idx, S) == [k \in 1..Len(idx) |-> Ratio(p1[idx[k]] - p2[idx[k]], p1[idx[k]] + p2[idx[k]], S)]
Zern(px, idx, thr, S) ==
  LET v == [k \in 1..Len(idx) |-> px[idx[k]] - thr]
  IN [k \in 1..Len(idx) |-> IF Sum(v) < 0 THEN -Ratio(v[k] * Len(idx), -Sum(v), S) ELSE Ratio(v[k] * Len(idx), Sum(v), S)]
\* --- mean derivatives of a phase over the pixels of each subaperture that are lit ---------
\* (a subaperture at the border of the light is not specified: its neighbours are extrapolated)
Slope2(v, k, back, fwd) == IF back = 0 THEN 2 * (v[fwd] - v[k]) ELSE IF fwd = 0 THEN 2 * (v[k] - v[back]) ELSE v[fwd] - v[back]
DX(v, cols, k) == Slope2(v, k, IF (k - 1) % cols = 0 THEN 0 ELSE k - 1, IF k % cols = 0 THEN 0 ELSE k + 1)
DY(v, cols, k) == Slope2(v, k, IF k <= cols THEN 0 ELSE k - cols, IF k + cols > Len(v) THEN 0 ELSE k + cols)
Deriv(v, lit, idx, cols, S) ==
  LET q(D(_, _, _), s) == LET L == SelectSeq(idx[s], LAMBDA k : lit[k] = 1)
                          IN IF L = <<>> THEN 0 ELSE (S * SumTo(LAMBDA j : D(v, cols, L[j]), Len(L))) \div (2 * Len(L))
  IN [x |-> [s \in 1..Len(idx) |-> q(DX, s)], y |-> [s \in 1..Len(idx) |-> q(DY, s)]]
\* --- what is published -------------------------------------------------------------------
Order(xy, inter) == IF inter THEN Flat([k \in 1..Len(xy.x) |-> <<xy.x[k], xy.y[k]>>]) ELSE xy.x \o xy.y
Null(s, sn) == IF sn = <<>> THEN s ELSE Sub(s, sn)
\* components seen by the rows of R are removed: s - A (R s); A is given as rows, R as rows
Filtered(s, A, R) == IF R = <<>> THEN s ELSE Sub(s, MatVec(A, MatVec(R, s)))
=============================================================================
