------------------------------ MODULE ShapesTrace ------------------------------
(* C37.  Events [what, ...]: see each clause.                                                      *)
EXTENDS TraceBase, Shapes, FiniteSetsExt
VARIABLES tid, i, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Near(a, b, tol) == Abs(a - b) <= tol
\* w: n cx cy dd p q square inverse arms width; m: rows of 0/1; at: the index pairs
Mask(e) ==
  LET w == [e EXCEPT !.arms = {e.arms[k] : k \in 1..Len(e.arms)}]
      px == (0..w.n-1) \X (0..w.n-1)
      lit(q) == LET b == e.m[q[1]+1][q[2]+1] IN IF w.inverse THEN 1 - b ELSE b
      X(q) == Pix(q[2], w.n)
      Y(q) == Pix(q[1], w.n)
  IN CASE Len(e.m) # w.n \/ \E r \in Rng(e.m) : Len(r) # w.n -> "the mask does not have the size asked for"
       [] \E q \in px : ~InMask(w, q[1], q[2]) /\ lit(q) # 0 -> "the mask has pixels outside the declared aperture"
       [] \E q \in px : InMask(w, q[1], q[2]) /\ FarFromArms(w, X(q), Y(q)) /\ lit(q) # 1 -> "the mask misses pixels of the declared aperture"
       [] \E q \in px : UnderArm(w, X(q), Y(q)) /\ lit(q) # 0 -> "the spider arms do not cover their directions"
       [] Rng(e.at) # {q \in px : e.m[q[1]+1][q[2]+1] = 1} \/ Len(e.at) # Sum([k \in 1..w.n |-> Sum(e.m[k])]) -> "the indexes are not those of the mask"
       [] OTHER -> ""
\* a, nr, nc; v: result times nr*nc (and of the total, scaled back)
Rebin(e) ==
  CASE Len(e.v) # e.nr \/ \E r \in Rng(e.v) : Len(r) # e.nc -> "the resampled frame has another shape"
    [] e.how = "area" /\ \E x \in 0..e.nr-1 : \E y \in 0..e.nc-1 : ~Near(e.v[x+1][y+1], Resampled(e.a, e.nr, e.nc, x, y), e.tol)
         -> "the light is not spread over the areas of the pixels"
    [] e.how = "mean" /\ LET br == Len(e.a) \div e.nr  bc == Len(e.a[1]) \div e.nc IN
         \E x \in 0..e.nr-1 : \E y \in 0..e.nc-1 : e.v[x+1][y+1] # BlockSum(e.a, br, bc, x, y) -> "the rebinned pixels are not the means of their blocks"
    [] e.how = "sample" /\ \E x \in 0..e.nr-1 : \E y \in 0..e.nc-1 :
         e.v[x+1][y+1] # e.a[(x * Len(e.a)) \div e.nr + 1][(y * Len(e.a[1])) \div e.nc + 1] -> "the sampled pixels are not those under them"
    [] OTHER -> ""
\* js: sequence of [j, n, m]; sz, d2 (twice the diameter); pts: sequence of [i, j, v, dx, dy]; dark: values outside
Zern(e) ==
  LET x(q) == 2 * Pix(q.j, e.sz)
      y(q) == 2 * Pix(q.i, e.sz)
      inside(q) == x(q) * x(q) + y(q) * y(q) < e.d2 * e.d2
  IN CASE e.n # RadialOrder(e.k) \/ e.m # AzOrder(e.k) -> "wrong orders of the Zernike index"
       [] \E q \in Rng(e.pts) : inside(q) /\ ~ZernOK(e.k, x(q), y(q), e.d2, q.v) -> "the Zernike polynomial differs from its definition"
       [] \E q \in Rng(e.pts) : ~inside(q) /\ q.v # 0 -> "the Zernike polynomial is not zero outside its disc"
       [] \E q \in Rng(e.pts) : inside(q) /\ ~ZernDOK(e.k, x(q), y(q), e.d2, 1, q.dx) -> "the derivative along x differs from that of the polynomial"
       [] \E q \in Rng(e.pts) : inside(q) /\ ~ZernDOK(e.k, x(q), y(q), e.d2, 2, q.dy) -> "the derivative along y differs from that of the polynomial"
       [] OTHER -> ""
\* num modes asked for (from start on): mean, std, out (part outside the space of its Zernikes), own (weight of the last one)
ZBase(e) ==
  CASE Len(e.mean) # e.num - e.start -> "wrong number of Zernike modes"
    [] \E k \in 1..Len(e.mean) : Abs(e.mean[k]) > 2 \/ ~Near(e.std[k], 100000, 3) -> "a Zernike mode without zero mean and unit rms"
    [] \E k \in 1..Len(e.mean) : Abs(e.out[k]) > 5 -> "a mode that is not made of the Zernike polynomials up to its own"
    [] \E k \in 1..Len(e.mean) : Abs(e.own[k]) < 100 -> "a mode without its own Zernike polynomial"
    [] e.full /\ \E k, l \in 1..Len(e.gram) : k # l /\ Abs(e.gram[k][l]) > 5 -> "the Zernike modes are not orthogonal"
    [] OTHER -> ""
\* n, step, geom, xs, ys (pixels), c1, c2; at: response of each actuator at the places of all
Zonal(e) ==
  LET all == Grid(e.n, e.step)
      ks == {k \in 1..e.n*e.n : e.geom = "square" \/ Kept(e.n, k)}
      N == Len(e.xs)
  IN CASE {<<e.xs[k], e.ys[k]>> : k \in 1..N} # {all[k] : k \in ks} \/ N # Cardinality(ks) -> "the actuators are not at their declared places"
       [] \E j, k \in 1..N : ~Near(e.at[j][k], Response(e.xs, e.ys, e.step, e.c1, e.c2, j, k), 1) -> "an influence function without the declared values at the actuators"
       [] OTHER -> ""
\* rings of actuators around the centre: xs, ys in 1/100 pixel from the centre, step in 1/100 pixel
Rings(e) ==
  LET r == IF e.n % 2 = 0 THEN e.n \div 2 + 1 ELSE (e.n + 1) \div 2
      first(q) == IF q = 0 THEN 1 ELSE 3 * q * (q - 1) + 2
      last(q) == IF q = 0 THEN 1 ELSE 3 * q * (q + 1) + 1
      rad(q) == q * e.step
      dist(k, l) == ISqrt(D2(e.xs, e.ys, k, l), 0, 46340)
  IN CASE Len(e.xs) # last(r - 1) -> "wrong number of actuators in the rings"
       [] \E q \in 0..r-1 : \E k \in first(q)..last(q) : ~Near(ISqrt(e.xs[k] * e.xs[k] + e.ys[k] * e.ys[k], 0, 46340), rad(q), 3) -> "an actuator out of its ring"
       [] \E q \in 1..r-1 : \E k \in first(q)..last(q)-1 : ~Near(dist(k, k + 1), dist(last(q), first(q)), 4) -> "the actuators are not evenly spaced on their ring"
       [] \E q \in 1..r-1 : ~Near(e.xs[first(q)] * e.sin, e.ys[first(q)] * e.cos, 40000) \/ e.xs[first(q)] * e.cos + e.ys[first(q)] * e.sin < 0 -> "the first actuator of a ring is not at the declared angle"
       [] OTHER -> ""
\* full (all pixels), sl (with mask and slaving); peak, top, thr (1/100); W[actuators x actuators] in 1/10000
Slaving(e) ==
  LET N == Len(e.xs)
      slave(k) == 100 * e.peak[k] < e.thr * e.top[k]
      ms == SelectSeq([k \in 1..N |-> k], LAMBDA k : ~slave(k))
      M == {ms[k] : k \in 1..Len(ms)}
      S == {k \in 1..N : slave(k)}
      near(s) == {m \in M : Close(e.xs, e.ys, e.step, m, s)}
      within(s) == {m \in M : 4 * D2(e.xs, e.ys, m, s) <= 25 * e.step * e.step}
      flatout(s) == \E a, b, c \in within(s) : (e.xs[b] - e.xs[a]) * (e.ys[c] - e.ys[a]) # (e.xs[c] - e.xs[a]) * (e.ys[b] - e.ys[a])
      wsum(s, f) == SumTo(LAMBDA k : e.W[ms[k]][s] * f[ms[k]], Len(ms))
      ones == [k \in 1..N |-> 1]
  IN CASE e.mx # [k \in 1..Len(ms) |-> e.xs[ms[k]]] \/ e.my # [k \in 1..Len(ms) |-> e.ys[ms[k]]] -> "the actuators kept are not those that act on the pupil"
       [] \E a, b \in 1..N : e.W[a][b] # 0 /\ (a \notin M \/ b \notin S) -> "a slaving weight between other actuators than a master and a slave"
       [] ~e.linear /\ \E s \in S : \E m \in M : ~Near(e.W[m][s], IF m \in near(s) THEN 10000 \div Cardinality(near(s)) ELSE 0, 1) -> "a slave does not follow the mean of its neighbours"
       [] e.linear /\ \E s \in S : Cardinality(within(s)) >= 3 /\ \E m \in M \ within(s) : e.W[m][s] # 0 -> "a slave follows masters beyond the search radius"
       [] e.linear /\ \E s \in S : flatout(s) /\ ~(Near(wsum(s, ones), 10000, 20) /\ Near(wsum(s, e.xs), 10000 * e.xs[s], 20 + Sum(e.xs))
                                                 /\ Near(wsum(s, e.ys), 10000 * e.ys[s], 20 + Sum(e.ys))) -> "a slave does not continue the plane of its masters"
       [] \E k \in 1..Len(ms) : \E p \in 1..Len(e.sl[k]) :
            ~Near(e.sl[k][p], e.full[ms[k]][p] + SumTo(LAMBDA s : IF slave(s) THEN (e.W[ms[k]][s] * e.full[s][p]) \div 10000 ELSE 0, N), 4 + 2 * Cardinality(S))
            -> "an influence function is not that of the master and its slaves"
       [] OTHER -> ""
\* n, num, dirs: directions of the boundaries [c, s]; pts: [x, y (2*pixel - n), p (petal values)]; arms, width of the spiders
Cross(a, x, y) == a[1] * y - a[2] * x
Petals(e) ==
  LET N == e.num
      sure(x, y) == \A a \in Rng(e.dirs) : Abs(Cross(a, x, y)) > 200
      inp(k, x, y) == LET a == e.dirs[k]  b == e.dirs[IF k = N THEN 1 ELSE k + 1] IN
                      IF N = 1 THEN TRUE ELSE IF N = 2 THEN Cross(a, x, y) > 0 ELSE Cross(a, x, y) > 0 /\ Cross(b, x, y) < 0
      of == TLCEval([k \in 1..N |-> {q \in 1..Len(e.pts) : e.pts[q].p[k] = 1}])
      card == TLCEval([k \in 1..N |-> Cardinality(of[k])])
      xy(z, ax) == IF ax = 1 THEN e.pts[z].x ELSE e.pts[z].y
      tilt(z, k, ax) == e.pts[z].t[(ax - 1) * N + k]
      tiltbad(k, ax) ==
        LET lo == (CHOOSE z \in of[k] : \A y \in of[k] : xy(z, ax) <= xy(y, ax))
            hi == (CHOOSE z \in of[k] : \A y \in of[k] : xy(z, ax) >= xy(y, ax))
            d == xy(hi, ax) - xy(lo, ax)
            r == tilt(hi, k, ax) - tilt(lo, k, ax)
        IN IF d = 0 THEN FALSE
           ELSE \/ Abs(MapThenSumSet(LAMBDA z : tilt(z, k, ax), of[k])) > card[k]
                \/ ~Near(MapThenSumSet(LAMBDA z : tilt(z, k, ax) * tilt(z, k, ax), of[k]), 1000000 * card[k], 3000 * card[k])
                \/ r <= 0
                \/ \E z \in of[k] : ~Near((tilt(z, k, ax) - tilt(lo, k, ax)) * d, r * (xy(z, ax) - xy(lo, ax)), 2 * d)
  IN CASE \E q \in Rng(e.pts) : Sum(q.p) # 1 \/ \E k \in 1..N : q.p[k] \notin {0, 1} -> "a pixel of the pupil is not in exactly one petal"
       [] \E q \in Rng(e.pts) : sure(q.x, q.y) /\ \E k \in 1..N : q.p[k] = 1 /\ ~inp(k, q.x, q.y) -> "a petal covers another sector of the pupil"
       [] e.width > 0 /\ \E q \in Rng(e.pts) : \E a \in Rng(e.dirs) : LET X == q.x + 1  Y == q.y + 1 IN
            Away(X, Y, a) <= 10000 * e.width - 200 /\ Along(X, Y, a) >= 0 /\ Along(X, Y, a) <= 10000 * (e.n - 2) -> "the spider arms are not between the petals"
       [] \E k \in 1..N : of[k] # {} /\ \E ax \in 1..2 : ~Near(e.cen[ax][k] * card[k], MapThenSumSet(LAMBDA z : 50 * (xy(z, ax) + e.n), of[k]), card[k]) -> "the petal is not at its centre of gravity"
       [] e.tilts /\ \E k \in 1..N : of[k] # {} /\ \E ax \in 1..2 : tiltbad(k, ax) -> "a petal tilt without zero mean, unit rms and its own slope"
       [] e.tilts /\ \E q \in Rng(e.pts) : \E k \in 1..N : q.p[k] = 0 /\ (q.t[k] # 0 \/ q.t[N + k] # 0) -> "a petal tilt beyond its petal"
       [] OTHER -> ""
\* model, band or "", l, w, e0, back (-1 / -1000: not given); nb: flux over the known factors; bm: magnitude of the sky
Flux(e) ==
  LET bs == Bands(e.model)
      cand == IF e.band # "" THEN {b \in Rng(bs) : b[1] = e.band} ELSE Nearest(bs, e.l)
      l(b) == IF e.l < 0 THEN b[2] ELSE e.l
      w(b) == IF e.w < 0 THEN b[3] ELSE e.w
      z(b) == IF e.e0 < 0 THEN b[4] ELSE e.e0
      good(b) == LET x == ((l(b) * w(b)) \div 10) * z(b) IN Near(e.nb, x, x \div 100 + 10) /\ Near(e.bm, IF e.back = -1000 THEN b[5] ELSE e.back, 0)
  IN CASE cand = {} -> IF e.refused THEN "" ELSE "an unknown band gives a flux"
       [] e.refused -> "a declared band is refused"
       [] ~\E b \in cand : good(b) -> "the flux is not that of the declared band and magnitude"
       [] OTHER -> ""
Freq(e) == IF \E x, y \in 1..e.n : e.v[x][y] # (x - e.n \div 2) * (x - e.n \div 2) + (y - e.n \div 2) * (y - e.n \div 2) THEN "wrong spatial frequencies" ELSE ""
\* A, cx, cz integers, W in 1/sc: W (A Cx A' + Cz) = Cx A'
MMSE(e) ==
  LET S == Len(e.A)  M == Len(e.A[1])
      CA == TLCEval([m \in 1..M |-> [s \in 1..S |-> SumTo(LAMBDA k : e.cx[m][k] * e.A[s][k], M)]])
      B == TLCEval([s \in 1..S |-> [t \in 1..S |-> e.cz[s][t] + SumTo(LAMBDA k : e.A[s][k] * CA[k][t], M)]])
  IN CASE Len(e.W) # M \/ \E r \in Rng(e.W) : Len(r) # S -> "the reconstructor has another shape"
       [] \E m \in 1..M : \E t \in 1..S : ~Near(SumTo(LAMBDA s : e.W[m][s] * B[s][t], S), e.sc * CA[m][t], SumTo(LAMBDA s : Abs(B[s][t]), S) + Abs(CA[m][t]) + 2)
            -> "the reconstructor does not minimise the mean square error"
       [] OTHER -> ""
\* gram, mean (1/10000), filt (products with the removed modes), out (part outside the actuators), count
KL(e) ==
  CASE Len(e.mean) # e.count -> "the modal base has another number of modes"
    [] \E k \in 1..Len(e.gram) : ~Near(e.gram[k][k], 10000, 5) \/ \E l \in 1..Len(e.gram) : l # k /\ Abs(e.gram[k][l]) > 5 -> "the modes are not orthonormal"
    [] \E k \in 1..Len(e.mean) : Abs(e.mean[k]) > 5 -> "a mode of the base with piston"
    [] \E k \in 1..Len(e.filt) : Abs(e.filt[k]) > 20 -> "the base contains the modes to be removed"
    [] \E k \in 1..Len(e.out) : Abs(e.out[k]) > 20 -> "a mode that the actuators and the removed modes do not make"
    [] OTHER -> ""
\* img, cy2, cx2 (twice the centre); prof, cnt, ee (all in 1/sc), the distances r of the bins
Radial(e) ==
  LET H == Len(e.img)  W == Len(e.img[1])
      d2(x, y) == (2 * x - e.cy2) * (2 * x - e.cy2) + (2 * y - e.cx2) * (2 * y - e.cx2)
      bin(x, y) == ISqrt(d2(x, y), 0, 1000) \div 2
      px == (0..H-1) \X (0..W-1)
      bs == {bin(q[1], q[2]) : q \in px}
      nth(k) == CHOOSE b \in bs : Cardinality({c \in bs : c < b}) = k - 1
      cnt(b) == Cardinality({q \in px : bin(q[1], q[2]) = b})
      tot(b) == SumTo(LAMBDA x : SumTo(LAMBDA y : IF bin(x - 1, y - 1) = b THEN e.img[x][y] ELSE 0, W), H)
      n == Cardinality(bs)
      num == TLCEval([k \in 1..n |-> cnt(nth(k))])
      sum == TLCEval([k \in 1..n |-> tot(nth(k))])
  IN CASE e.cnt # num -> "the bins do not hold the pixels at their distance"
       [] \E k \in 1..n : ~Near(e.prof[k] * num[k], sum[k] * 1000, num[k]) -> "the profile is not the mean over the ring"
       [] \E k \in 1..n : ~Near(e.ee[k] * Total(e.img), 10000 * SumTo(LAMBDA l : sum[l], k), Total(e.img)) -> "the encircled energy is not the light within the radius"
       [] OTHER -> ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           bad' = IF "err" \in DOMAIN e THEN "the library failed"
                  ELSE TLCEval(CASE e.what = "mask" -> Mask(e) [] e.what = "rebin" -> Rebin(e) [] e.what = "zern" -> Zern(e) [] e.what = "zbase" -> ZBase(e)
                         [] e.what = "zonal" -> Zonal(e) [] e.what = "rings" -> Rings(e) [] e.what = "slaving" -> Slaving(e) [] e.what = "petals" -> Petals(e)
                         [] e.what = "flux" -> Flux(e) [] e.what = "freq" -> Freq(e) [] e.what = "mmse" -> MMSE(e) [] e.what = "kl" -> KL(e) [] OTHER -> Radial(e))
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
===============================================================================
