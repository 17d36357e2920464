-------------------------------- MODULE Prop ---------------------------------
(* Fields seen by sources through layers of known content, deformable mirrors and          *)
(* operations on fields.  Arrays are flat (row after row); positions and displacements are *)
(* integers in units of 1/Q pixel; amplitudes of the result in units of 1/Q^2 per layer.   *)
EXTENDS Vec
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Clamp(x, n, Q) == MaxOf(0, MinOf(x, (n - 1) * Q))
\* bilinear interpolation of v (n x n) at column X and row Y, in units of 1/Q^2
Bilinear(v, n, X, Y, Q) ==
  LET x == Clamp(X, n, Q)  y == Clamp(Y, n, Q)
      c == x \div Q  r == y \div Q
      c2 == MinOf(c + 1, n - 1)  r2 == MinOf(r + 1, n - 1)
      fx == x - c * Q  fy == y - r * Q
      at(a, b) == v[a * n + b + 1]
  IN (Q - fy) * ((Q - fx) * at(r, c) + fx * at(r, c2)) + fy * ((Q - fx) * at(r2, c) + fx * at(r2, c2))
\* layer: [n, h, sx, sy, rot (quarter turns), mag]; source: [ux, uy (displacement per unit of height), H (0: infinite)]
\* world: [N (pupil), Q, am (air mass), pp (<<>> or position of the pupil)]
Cut(w, s, l) == /\ l.h = 0 \/ (s.H = 0 /\ s.ux = 0 /\ s.uy = 0)
                /\ l.sx = 0 /\ l.sy = 0 /\ w.pp = <<>> /\ l.rot = 0 /\ l.mag = 1
Pup(w, s, l, k) == IF w.pp = <<>> \/ l.n <= w.N THEN 0
                   ELSE IF s.H = 0 THEN w.pp[k] ELSE (w.pp[k] * (s.H - l.h)) \div s.H
DX(w, s, l) == s.ux * l.h * w.am + Pup(w, s, l, 1)
DY(w, s, l) == s.uy * l.h * w.am + Pup(w, s, l, 2)
Outside(w, s, l) == LET lim == (l.n - w.N) * w.Q IN 2 * Abs(DX(w, s, l)) > lim \/ 2 * Abs(DY(w, s, l)) > lim
Below(s, l) == s.H = 0 \/ s.H > l.h
Refused(w, srcs, ls) == \E a \in 1..Len(srcs) : \E b \in 1..Len(ls) :
    LET s == srcs[a]  l == ls[b] IN (~Cut(w, s, l)) /\ (~Below(s, l) \/ Outside(w, s, l))
\* place of pupil column x on the layer's columns, relative to the layer's centre, before rotation
Rel(w, s, l, x) == LET a == (2 * x + 1 - w.N) * w.Q
                   IN IF s.H = 0 THEN a \div (2 * l.mag) ELSE (a * (s.H - l.h)) \div (2 * l.mag * s.H)
\* (column, row) on the layer of pupil pixel (x, y)
Place(w, s, l, x, y) ==
  LET px == Rel(w, s, l, x) - l.sx + DX(w, s, l)
      py == Rel(w, s, l, y) - l.sy + DY(w, s, l)
      c == ((l.n - 1) * w.Q) \div 2
      t == CASE l.rot = 0 -> <<px, py>>
             [] l.rot = 1 -> <<py, 0 - px>>
             [] l.rot = 2 -> <<0 - px, 0 - py>>
             [] l.rot = 3 -> <<0 - py, px>>
  IN <<c + t[1], c + t[2]>>
\* content v of the layer over the pupil, in units of 1/Q^2
OnPupil(w, s, l, v) ==
  [k \in 1..(w.N * w.N) |->
    LET x == (k - 1) % w.N  y == (k - 1) \div w.N
        o == (l.n - w.N) \div 2
        p == Place(w, s, l, x, y)
    IN IF Cut(w, s, l) THEN w.Q * w.Q * v[(y + o) * l.n + x + o + 1]
       ELSE Bilinear(v, l.n, p[1], p[2], w.Q)]
\* phases of magnified layers: dark pixels take the mean of the lit ones of their block (of all
\* if there is none), rounded down to a unit
Block(n) == IF n % 5 = 0 THEN 5 ELSE IF n % 4 = 0 THEN 4 ELSE IF n % 3 = 0 THEN 3 ELSE IF n % 2 = 0 THEN 2 ELSE 1
Fill(l, A, P, U) ==
  LET b == Block(l.n)
      lit == {k \in 1..(l.n * l.n) : A[k] # 0}
      row(k) == (k - 1) \div l.n
      col(k) == (k - 1) % l.n
      mean(S) == (U * Sum([k \in 1..(l.n * l.n) |-> IF k \in S THEN P[k] ELSE 0])) \div MaxOf(1, SumTo(LAMBDA k : IF k \in S THEN 1 ELSE 0, l.n * l.n))
      all == mean(lit)
      blk(i, j) == LET S == {k \in lit : row(k) \div b = i /\ col(k) \div b = j} IN IF S = {} THEN all ELSE mean(S)
      M == [i \in 0..(l.n \div b - 1) |-> [j \in 0..(l.n \div b - 1) |-> blk(i, j)]]
  IN [k \in 1..(l.n * l.n) |-> IF A[k] # 0 THEN U * P[k] ELSE M[row(k) \div b][col(k) \div b]]
RECURSIVE SumAll(_)
SumAll(q) == IF Len(q) = 1 THEN q[1] ELSE Add(q[1], SumAll(Tail(q)))
RECURSIVE ProdAll(_)
ProdAll(q) == IF Len(q) = 1 THEN q[1] ELSE Mul(q[1], ProdAll(Tail(q)))
\* amplitude (units 1/Q^(2 layers)) and phase (units 1/(U Q^2)) of a source
Field(w, s, ls, As, Ps, U) ==
  [A |-> ProdAll([k \in 1..Len(ls) |-> OnPupil(w, s, ls[k], As[k])]),
   P |-> SumAll([k \in 1..Len(ls) |-> OnPupil(w, s, ls[k], IF ls[k].mag = 1 THEN Scale(U, Ps[k]) ELSE Fill(ls[k], As[k], Ps[k], U))])]
\* --- deformable mirror --------------------------------------------------------------------
\* modes: numbers of the influence functions (columns of m2c) the commands refer to
Cmd(c, k) == IF k <= Len(c) THEN c[k] ELSE 0
Acts(c, m2c, modes) == [a \in 1..Len(m2c) |-> SumTo(LAMBDA k : m2c[a][modes[k]] * Cmd(c, k), Len(modes))]
Surface(c, sign, m2c, modes, ifn) ==
  LET np == Len(ifn[1])
      act == IF m2c = <<>> THEN <<>> ELSE Acts(c, m2c, modes)
  IN [p \in 1..np |-> sign * (IF m2c = <<>> THEN SumTo(LAMBDA k : Cmd(c, k) * ifn[modes[k]][p], Len(modes))
                              ELSE SumTo(LAMBDA a : act[a] * ifn[a][p], Len(m2c)))]
Shape(npix, idx, v) == [q \in 1..npix |-> IF \E k \in 1..Len(idx) : idx[k] = q THEN v[CHOOSE k \in 1..Len(idx) : idx[k] = q] ELSE 0]
\* --- operations on fields, f = [A, P, S] -----------------------------------------------------
RECURSIVE Combine(_)
Combine(fs) == IF Len(fs) = 1 THEN fs[1]
               ELSE LET r == Combine(Tail(fs)) IN [A |-> Mul(fs[1].A, r.A), P |-> Add(fs[1].P, r.P), S |-> fs[1].S + r.S]
Reflect(f) == [f EXCEPT !.P = Scale(-1, f.P)]
\* phases multiplied by the number of lit pixels
Flatten(f) == LET n == SumTo(LAMBDA k : IF f.A[k] > 0 THEN 1 ELSE 0, Len(f.A))
                  m == SumTo(LAMBDA k : IF f.A[k] > 0 THEN f.P[k] ELSE 0, Len(f.A))
                  u == MaxOf(n, 1)
              IN [f EXCEPT !.P = [k \in 1..Len(f.P) |-> u * f.P[k] - (IF f.A[k] > 0 THEN m ELSE 0)]]
=============================================================================
