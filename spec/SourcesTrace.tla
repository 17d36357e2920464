----------------------------- MODULE SourcesTrace -----------------------------
(* C38.  Points are <<x, y, tip, tilt, focus, flux>>: angles in micro-arcseconds relative to that of their layer, tip  *)
(* and tilt in 1/10^4 rad, focus in 1/1000 rad, flux in 1/10^5 of the intensity of their layer; sorted by radius, angle. *)
EXTENDS TraceBase, Sources
VARIABLES tid, i, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE ISq(_, _, _)
ISq(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN ISq(v, m, hi) ELSE ISq(v, lo, m)
\* a grid of n points over half: the points as pairs of odd integers
OnGrid(x, half, n) == Round(x * (n - 1), half)
Grid(pts, S, half, n) ==
  LET on(p) == <<OnGrid(p[1], half, n), OnGrid(p[2], half, n)>>
      off(p) == \E k \in 1..2 : ~Near(p[k] * (n - 1), half * on(p)[k], n + half \div 150)
  IN Len(pts) = Cardinality(S) /\ {on(pts[k]) : k \in 1..Len(pts)} = S /\ ~\E p \in Rng(pts) : off(p)
\* ring of radius R (micro-arcsec): count as the circumference over the spacing, rounded or rounded up; equal angles from zero
RingCount(c, R, os, how) ==
  LET v == (6283 * R) \div os  tol == (v \div 1500) + 3
  IN IF how = "six" THEN TRUE ELSE IF how = "round" THEN Near(1000 * c, v, 500 + tol) ELSE 1000 * c >= v - tol /\ 1000 * c <= v + 1000 + tol
RingEven(ps, R) ==
  LET m == Len(ps)
      X(k) == (ps[k][1] * 5000) \div R   Y(k) == (ps[k][2] * 5000) \div R
      nx(k) == (k % m) + 1
      ch(k) == (X(k) - X(nx(k))) * (X(k) - X(nx(k))) + (Y(k) - Y(nx(k))) * (Y(k) - Y(nx(k)))
  IN /\ \A k \in 1..m : Abs(X(k)) < 6000 /\ Abs(Y(k)) < 6000 /\ Near(X(k) * X(k) + Y(k) * Y(k), 25000000, 60000)
     /\ Near(X(1), 5000, 10) /\ Near(Y(1), 0, 10)
     /\ \A k \in 1..m : Near(ch(k), ch(1), (ch(1) \div 30) + 300)
\* centre: number of points at zero; radii: sequence; counts by rule
RECURSIVE RingsFrom(_, _, _, _, _)
RingsFrom(pts, radii, j, os, how) ==
  IF j > Len(radii) THEN pts = <<>>
  ELSE LET R == radii[j]
           lim == IF j < Len(radii) THEN (R + radii[j+1]) \div 2 ELSE R + (R \div 4)
           lo(p) == Max2(Abs(p[1]), Abs(p[2])) <= lim /\ ISq((p[1] \div 10) * (p[1] \div 10) + (p[2] \div 10) * (p[2] \div 10), 0, 46340) * 10 <= lim
           c == Cardinality({k \in 1..Len(pts) : lo(pts[k])})
           ring == SubSeq(pts, 1, c)
       IN /\ c > 0 /\ (how = "six" => c = 6 * j) /\ RingCount(c, R, os, how) /\ RingEven(ring, R)
          /\ RingsFrom(SubSeq(pts, c + 1, Len(pts)), radii, j + 1, os, how)
Rings(pts, centre, radii, os, how) ==
  /\ Len(pts) >= centre
  /\ (centre = 1 => pts[1][1] = 0 /\ pts[1][2] = 0)
  /\ RingsFrom(SubSeq(pts, centre + 1, Len(pts)), radii, 1, os, how)
Equal(pts) == \A p \in Rng(pts) : Near(p[6] * Len(pts), 100000, Len(pts))
Shares(pts, val(_)) ==
  LET tot == TLCEval(MapThenSumSet(LAMBDA k : val(pts[k]), 1..Len(pts)))
  IN tot > 0 /\ \A p \in Rng(pts) : Near(p[6], IF val(p) < 20000 THEN (val(p) * 100000) \div tot ELSE ((val(p) \div 100) * 100000) \div (tot \div 100), (300000 \div tot) + 5 + p[6] \div 150)
\* the pattern of one layer
Pattern(e, pts, P) ==
  LET os == Spacing(e.lam, e.D, e.s10)
      half == e.size \div 2
  IN CASE e.type = "POINT_SOURCE" -> pts # <<>> /\ Len(pts) = 1 /\ pts[1][1] = 0 /\ pts[1][2] = 0 /\ pts[1][6] = 100000
       [] e.type = "TOPHAT" /\ e.sampling = "CARTESIAN" -> LET n == 2 * Round(half, os) IN Grid(pts, DiscGrid(n), half, n) /\ Equal(pts)
       [] e.type = "TOPHAT" /\ e.sampling = "POLAR" -> LET n == Round(half, os) IN
            Rings(pts, 1, [j \in 1..n-1 |-> Round(half * j, n - 1)], os, "round") /\ Equal(pts)
       [] e.type = "TOPHAT" -> LET n == IF e.nr > 0 THEN e.nr ELSE Round(half * e.s10, 50 * os) IN
            Rings(pts, IF n > 1 THEN 1 ELSE 0, [j \in 1..n |-> Round(half * (2 * j - 1), 2 * n)], os, "up") /\ Equal(pts)
       [] e.type = "GAUSS" /\ e.sampling = "CARTESIAN" -> LET n == 2 * Round(e.F * 12740, 10000)  S == GaussGrid(n, e.F)
            on(p) == <<OnGrid(p[1], ((n - 1) * os) \div 2, n), OnGrid(p[2], ((n - 1) * os) \div 2, n)>> IN
            Grid(pts, S, ((n - 1) * os) \div 2, n) /\ Shares(pts, LAMBDA p : GaussAt(on(p)[1], on(p)[2], e.F) \div 1000)
       [] e.type = "GAUSS" -> LET ext == ((e.size \div 100) * 12740) \div 100
            n == IF e.nr > 0 THEN e.nr ELSE Round(ext * e.s10, 50 * os)
            rad == [j \in 1..n |-> Round(ext * (2 * j - 1), 2 * n)]
            at(p) == LET r == ISq((p[1] \div 10) * (p[1] \div 10) + (p[2] \div 10) * (p[2] \div 10), 0, 46340) * 10 IN
                     IF r < rad[1] \div 2 THEN 3000 ELSE LET j == Clamp(Round(r * 2 * n + ext, 2 * ext), 1, n) IN GaussRing(j, n) \div 10
            IN Rings(pts, 1, rad, os, "up") /\ Shares(pts, at)
       [] OTHER ->
          LET S == Len(P)  mp == MaxPix(S, e.ps, os)  N == OddUp(mp)
              px(a) == Round(1000 * a, e.ps) + Centre(S, "pixel")
              val(p) == Bilin(P, px(p[2]), px(p[1])) \div 10
          IN IF e.sampling = "POLAR" THEN
               LET n == (mp + 1) \div 2 IN Rings(pts, 1, [j \in 1..n-1 |-> (j * S * e.ps) \div (2 * n - 1)], os, "six") /\ Shares(pts, val)
             ELSE
               LET pos(k) == px(PsfGrid(k, mp, os))
                   sure(k) == pos(k) >= 3 /\ pos(k) < 1000 * (S - 1) - 3
                   may(k) == pos(k) >= -3 /\ pos(k) < 1000 * (S - 1) + 3
                   near(a) == {k \in 0..N-1 : may(k) /\ Near(a, PsfGrid(k, mp, os), 4 + os \div 500)}
                   cells == {<<k, l>> \in (0..N-1) \X (0..N-1) : \E p \in Rng(pts) : k \in near(p[1]) /\ l \in near(p[2])}
               IN /\ \A p \in Rng(pts) : near(p[1]) # {} /\ near(p[2]) # {}
                  /\ Cardinality(cells) = Len(pts)
                  /\ \A k, l \in 0..N-1 : sure(k) /\ sure(l) => <<k, l>> \in cells
                  /\ Shares(pts, val)
Coeffs(e, L, pts) ==    \* the angle with that of the layer
  \A p \in Rng(pts) : \A k \in 1..2 : Near(p[k + 2], Tilt(p[k] + (IF e.layers = <<>> THEN 0 ELSE e.layers[L][k + 1]), e.lam, e.D), 12 + Abs(p[k + 2]) \div 1000)
\* e.layers: <<height, tip, tilt, intensity>> in km, micro-arcsec; e.got: [n, pts] per layer, by focus
One(e, got, P) ==
  CASE got.n # got.rows -> "the number of points is not that of the table"
    [] Len(got.layers) # Max2(Len(e.layers), 1) -> "not one pattern for each layer"
    [] \E k \in 1..Len(got.layers) : ~TLCEval(Pattern(e, got.layers[k], P)) -> "the points or their fluxes are not those of the declared source"
    [] \E k \in 1..Len(got.layers) : ~Coeffs(e, k, got.layers[k]) -> "a point whose tip and tilt are not those of its angle"
    [] \E k \in 1..Len(got.layers) : \E p \in Rng(got.layers[k]) :
         LET f == IF e.layers = <<>> THEN 0 ELSE Focus(e.layers[k][1], e.foc, e.lam, e.D, e.air) IN ~Near(p[5], f, 3 + Abs(f) \div 400)
         -> "a layer without the focus of its height"
    [] OTHER -> ""
RECURSIVE Fold(_, _, _, _)
Fold(e, P, k, gt) ==
  IF k > Len(e.steps) THEN ""
  ELSE LET s == e.steps[k]
           new == IF s.psf = <<>> THEN P ELSE Updated(P, s.psf, e.crop)
           t == IF s.psf = <<>> \/ Null(s.psf) THEN gt ELSE k
           r == One(e, s.got, new)
       IN IF s.gt # t THEN "the source is not dated with the PSF it comes from"
          ELSE IF r # "" THEN r ELSE Fold(e, new, k + 1, t)
Source(e) ==
  IF e.spoilt THEN "the PSF given by the user was modified"
  ELSE LET r == One(e, e.got, e.P) IN IF r # "" THEN r ELSE Fold(e, e.P, 1, e.gt0)
\* threshold e.thr (tenths of the mean): all points, kept points (sorted in the same way), fluxes in 1/10^5
Cut(e) ==
  LET N == Len(e.all)
      tot == MapThenSumSet(LAMBDA k : e.all[k][6], 1..N)
      d(p) == p[6] * N * 10 - e.thr * tot
      tol == e.thr * N + 20 * N
      same(p, q) == \A k \in 1..6 : Near(p[k], q[k], 1)
  IN CASE \E p \in Rng(e.kept) : ~\E q \in Rng(e.all) : same(p, q) -> "the threshold changes points"
       [] \E p \in Rng(e.kept) : d(p) < -tol -> "a point below the threshold is kept"
       [] \E p \in Rng(e.all) : d(p) > tol /\ ~\E q \in Rng(e.kept) : same(p, q) -> "a point above the threshold is dropped"
       [] Len(e.kept) # Cardinality({k \in 1..N : \E q \in Rng(e.kept) : same(e.all[k], q)}) -> "the threshold repeats points"
       [] OTHER -> ""
\* ops; seen: after every step [a |-> [v, t], b |-> [v, t]]
Inputs(e) ==
  LET w == Played(e.ops, NoOut, <<>>, 1)
  IN CASE Len(w) # Len(e.seen) -> "not one observation for each step"
       [] \E k \in 1..Len(w) : \E n \in Known : e.seen[k][n].v # w[k][n].v -> "an output does not hold the last value given for it"
       [] \E k \in 1..Len(w) : \E n \in Known : e.seen[k][n].t # w[k][n].t -> "an output is not dated with the step that read its value"
       [] OTHER -> ""
\* layers: worlds of Wind; sp (1/100 m/s), s, c (1/10^4)
Winds(e) ==
  CASE e.spoilt -> "the given wind was modified"
    [] Len(e.sp) # Len(e.layers) -> "wrong number of winds"
    [] \E k \in 1..Len(e.layers) :
         LET w == e.layers[k]  tol == 3 + (Abs(e.sp[k]) \div 3000) IN
         ~Near((e.sp[k] * e.s[k]) \div 10000, Wind(w, 1), tol) \/ ~Near((e.sp[k] * e.c[k]) \div 10000, Wind(w, 2), tol)
       -> "the effective wind is not the sum of the wind and of the slewing of the line of sight"
    [] \E k \in 1..Len(e.layers) : ~Near(e.sp[k], ISq(Wind(e.layers[k], 1) * Wind(e.layers[k], 1) + Wind(e.layers[k], 2) * Wind(e.layers[k], 2), 0, 46340), 3 + e.sp[k] \div 3000)
       -> "wrong speed of the effective wind"
    [] OTHER -> ""
Timing(e) ==
  IF \E k \in 1..Len(e.h) : ~Near(e.up[k], e.air * Light(2 * e.H - e.h[k]), 4 + e.up[k] \div 100000) \/ ~Near(e.down[k], e.air * Light(e.h[k]), 4)
  THEN "the delays are not the light travel times" ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           bad' = IF "err" \in DOMAIN e THEN "the library failed"
                  ELSE TLCEval(CASE e.what = "source" -> Source(e) [] e.what = "cut" -> Cut(e) [] e.what = "inputs" -> Inputs(e)
                                 [] e.what = "wind" -> Winds(e) [] OTHER -> Timing(e))
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
===============================================================================
