-------------------------------- MODULE Shapes --------------------------------
(* C37.  The geometry the library declares: masks, resampling, Zernike polynomials, zonal and    *)
(* petal influence functions, photon fluxes, reconstructors and modal bases.  Everything is in   *)
(* integers: pixel i of n has the coordinate 2i+1-n (in units of 1/n of the frame).              *)
EXTENDS Vec, FiniteSets
Pix(i, n) == 2 * i + 1 - n
\* ---- masks: centre (cx, cy) in units of 1/n, diameter dd/(2n), obstruction p/q of it
InDisc(X, Y, dd, p, q) == LET r == X * X + Y * Y IN 4 * r < dd * dd /\ 4 * q * q * r >= dd * dd * p * p
InSquare(X, Y, dd, p, q) == /\ 2 * Abs(X) <= dd /\ 2 * Abs(Y) <= dd
                            /\ 2 * q * Abs(X) >= dd * p \/ 2 * q * Abs(Y) >= dd * p
InMask(w, i, j) == LET X == Pix(j, w.n) - w.cx
                       Y == Pix(i, w.n) - w.cy
                   IN IF w.square THEN InSquare(X, Y, w.dd, w.p, w.q) ELSE InDisc(X, Y, w.dd, w.p, w.q)
\* spider arms: rays from the centre in the directions <<c, s>> (in 1/10000), width in pixels
Away(X, Y, a) == Abs(X * a[2] - Y * a[1])           \* distance from the line, 1/20000 pixel
Along(X, Y, a) == X * a[1] + Y * a[2]
UnderArm(w, X, Y) == \E a \in w.arms : Away(X, Y, a) <= 10000 * w.width - 200 /\ Along(X, Y, a) >= 0 /\ Along(X, Y, a) <= 10000 * (w.n - 2)
FarFromArms(w, X, Y) == \A a \in w.arms : \/ Away(X, Y, a) > 12000 * w.width + 26000
                                          \/ Along(X, Y, a) < -12000 * w.width - 26000
\* ---- resampling by areas
Overlap(i, old, k, new) ==      \* of output i of `new` with input k of `old`, in units of 1/(old*new)
  LET lo == IF i * old > k * new THEN i * old ELSE k * new
      hi == IF (i + 1) * old < (k + 1) * new THEN (i + 1) * old ELSE (k + 1) * new
  IN IF hi > lo THEN hi - lo ELSE 0
\* times (new rows * new columns): the light of the pixels, spread evenly over their areas
Resampled(a, nr, nc, i, j) ==
  LET r == Len(a)  c == Len(a[1])
      ks == {k \in 0..r-1 : Overlap(i, r, k, nr) > 0}
      ls == {l \in 0..c-1 : Overlap(j, c, l, nc) > 0}
      k0 == SetMin(ks)  l0 == SetMin(ls)
  IN SumTo(LAMBDA x : Overlap(i, r, k0 + x - 1, nr) * SumTo(LAMBDA y : a[k0 + x][l0 + y] * Overlap(j, c, l0 + y - 1, nc), Cardinality(ls)), Cardinality(ks))
Total(a) == SumTo(LAMBDA k : Sum(a[k]), Len(a))
BlockSum(a, br, bc, i, j) == SumTo(LAMBDA x : SumTo(LAMBDA y : a[i * br + x][j * bc + y], bc), br)
\* ---- Zernike polynomials (Noll)
RECURSIVE Order(_, _)
Order(j, n) == IF j <= ((n + 1) * (n + 2)) \div 2 THEN n ELSE Order(j, n + 1)
RadialOrder(j) == Order(j, 0)
AzOrder(j) == LET n == RadialOrder(j)
                  k == j - (n * (n + 1)) \div 2      \* 1..n+1 within the order
              IN IF n % 2 = 0 THEN (k \div 2) * 2 ELSE ((k - 1) \div 2) * 2 + 1
RECURSIVE Fact(_), Pow(_, _), CPow(_, _, _), ISqrt(_, _, _)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
CPow(x, y, m) == IF m = 0 THEN <<1, 0>> ELSE LET z == CPow(x, y, m - 1) IN <<x * z[1] - y * z[2], x * z[2] + y * z[1]>>
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= x \div m THEN ISqrt(x, m, hi) ELSE ISqrt(x, lo, m)
Norm(j) == LET n == RadialOrder(j) IN ISqrt(100000000 * (IF AzOrder(j) = 0 THEN n + 1 ELSE 2 * (n + 1)), 1, 46340)
RadialCoef(n, m, s) == (IF s % 2 = 0 THEN 1 ELSE -1) * (Fact(n - s) \div (Fact(s) * Fact((n + m) \div 2 - s) * Fact((n - m) \div 2 - s)))
\* at the point (x, y) of a disc of radius d: value times d^n, and its derivatives times d^(n-1)
Part(j, z) == IF j % 2 = 0 \/ AzOrder(j) = 0 THEN z[1] ELSE z[2]
Z0(j, x, y, d) ==
  LET n == RadialOrder(j)  m == AzOrder(j)  r2 == x * x + y * y
  IN Part(j, CPow(x, y, m)) * SumTo(LAMBDA t : RadialCoef(n, m, t - 1) * Pow(r2, (n - m) \div 2 - t + 1) * Pow(d, 2 * (t - 1)), (n - m) \div 2 + 1)
\* derivative of the angular part: d/dx (x+iy)^m = m (x+iy)^(m-1), d/dy = i m (x+iy)^(m-1)
DAng(j, x, y, m, ax) == IF m = 0 THEN 0 ELSE LET z == CPow(x, y, m - 1) IN m * Part(j, IF ax = 1 THEN z ELSE <<-z[2], z[1]>>)
ZD(j, x, y, d, ax) ==
  LET n == RadialOrder(j)  m == AzOrder(j)  r2 == x * x + y * y  v == IF ax = 1 THEN x ELSE y
      A == Part(j, CPow(x, y, m))  DA == DAng(j, x, y, m, ax)
      term(s) == LET k == (n - m) \div 2 - s IN
                 RadialCoef(n, m, s) * Pow(d, 2 * s) * (DA * Pow(r2, k) + (IF k = 0 THEN 0 ELSE A * 2 * k * v * Pow(r2, k - 1)))
  IN SumTo(LAMBDA t : term(t - 1), (n - m) \div 2 + 1)
ZernOK(j, x, y, d, v) == Abs(v - (Norm(j) * Z0(j, x, y, d)) \div Pow(d, RadialOrder(j))) <= 4
ZernDOK(j, x, y, d, ax, v) == LET n == RadialOrder(j) IN
  IF n = 0 THEN v = 0 ELSE Abs(v - (Norm(j) * ZD(j, x, y, d, ax)) \div Pow(d, n - 1)) <= 4 + Abs(v) \div 5000
\* ---- actuators
D2(xs, ys, a, b) == (xs[a] - xs[b]) * (xs[a] - xs[b]) + (ys[a] - ys[b]) * (ys[a] - ys[b])
Grid(n, step) == [k \in 1..n*n |-> <<((k - 1) % n) * step, ((k - 1) \div n) * step>>]
\* the round pattern keeps the actuators within (9/8 - n/384) of the half side
Kept(n, k) == LET X == Pix((k - 1) % n, n)  Y == Pix((k - 1) \div n, n)
              IN (X * X + Y * Y) * 384 * 384 <= ((n - 1) * (432 - n)) * ((n - 1) * (432 - n))
Response(xs, ys, step, c1, c2, j, k) ==      \* of actuator j at the place of actuator k, in 1/1000
  IF j = k THEN 1000 ELSE LET d == D2(xs, ys, j, k) IN IF d <= step * step THEN c1 ELSE IF d <= 4 * step * step THEN c2 ELSE 0
Close(xs, ys, step, a, b) == 100 * D2(xs, ys, a, b) <= 121 * step * step
\* ---- bands: wavelength and width in nm, zero magnitude flux in 1e-12, sky in 1/10 magnitudes
Bands(model) == IF model = "MAORY-1"
  THEN << <<"V", 540, 90, 36800, 214>>, <<"R", 650, 130, 17700, 206>>, <<"I", 800, 200, 11900, 197>>,
          <<"J", 1250, 300, 2860, 165>>, <<"H", 1650, 350, 1080, 144>>, <<"K", 2200, 400, 379, 130>> >>
  ELSE << <<"U", 360, 68, 43500, 230>>, <<"B", 440, 98, 72000, 220>>, <<"V", 550, 89, 39200, 210>>, <<"R", 700, 220, 17600, 200>>,
          <<"I", 900, 240, 8300, 195>>, <<"J", 1250, 300, 3400, 140>>, <<"H", 1650, 350, 700, 135>>, <<"K", 2200, 400, 390, 125>>,
          <<"L", 3400, 550, 81, 30>>, <<"M", 5000, 300, 22, 0>>, <<"Na", 589, 10, 39200, 230>> >>
Nearest(bs, l) ==
  LET cand == {k \in 1..Len(bs) : bs[k][1] # "Na" \/ l = 589}
  IN {bs[k] : k \in {c \in cand : \A d \in cand : Abs(bs[c][2] - l) <= Abs(bs[d][2] - l)}}
===============================================================================
