-------------------------------- MODULE ICalib --------------------------------
(* C30: the interactive calibrators.  A command acts in the step it arrives in, before the   *)
(* frame of that step is used; a command that cannot be obeyed changes nothing.               *)
EXTENDS Vec, FiniteSets, FiniteSetsExt, TLC
NoCmd == [nf |-> 0, bad |-> FALSE, trig |-> FALSE, reset |-> FALSE, load |-> "", save |-> ""]
(* ---- dark frames.  s: dark, N (frames of the next acquisition), left and of (frames still  *)
(* missing from, and size of, the one under way), acc (their sum), last (last frame           *)
(* delivered), files (name -> frame), when (step at which the dark frame last changed).       *)
DarkInit(n, N, files) == [dark |-> Zeros(n), N |-> N, left |-> 0, of |-> N, acc |-> Zeros(n),
                          last |-> Zeros(n), files |-> files, when |-> -1]
Loadable(s, c) == c.load # "" /\ c.load \in DOMAIN s.files /\ Len(s.files[c.load]) = Len(s.dark)
Ordered(s, c, t) ==
  LET d == IF Loadable(s, c) THEN s.files[c.load] ELSE IF c.reset THEN Zeros(Len(s.dark)) ELSE s.dark
      N == IF c.nf > 0 THEN c.nf ELSE s.N
      w == IF Loadable(s, c) \/ c.reset THEN t ELSE s.when
  IN IF c.trig THEN [s EXCEPT !.dark = d, !.when = w, !.N = N, !.left = N, !.of = N, !.acc = Zeros(Len(s.dark))]
     ELSE [s EXCEPT !.dark = d, !.when = w, !.N = N]
Framed(s, fresh, frame, t) ==
  LET s1 == IF fresh THEN [s EXCEPT !.last = frame] ELSE s IN
  IF ~fresh \/ s.left = 0 THEN s1
  ELSE LET a == Add(s.acc, frame) IN
       IF s.left > 1 THEN [s1 EXCEPT !.acc = a, !.left = s.left - 1]
       ELSE [s1 EXCEPT !.acc = Zeros(Len(frame)), !.left = 0, !.dark = DivBy(a, s.of), !.when = t]
Saved(s, c, over) ==
  IF c.save = "" \/ (c.save \in DOMAIN s.files /\ ~over) THEN s
  ELSE [s EXCEPT !.files = [f \in DOMAIN s.files \cup {c.save} |-> IF f = c.save THEN s.dark ELSE s.files[f]]]
DarkStep(s, c, fresh, frame, t, over) == Saved(Framed(Ordered(s, c, t), fresh, frame, t), c, over)
\* the frame that leaves is the last one delivered minus the dark frame of the beginning of the step
Subtracted(s, c, fresh, frame, t) == Sub(IF fresh THEN frame ELSE s.last, Ordered(s, c, t).dark)
(* ---- pyramid pupils.  Images are h rows of w pixels; thresholds are in 64ths. *)
Quadrants(h, w) ==   \* of a centred square, in the order bottom left, bottom right, top left, top right
  LET cy == h \div 2  cx == w \div 2  d == IF cx < cy THEN cx ELSE cy
  IN << <<cx - d, cy - d, d>>, <<cx, cy - d, d>>, <<cx - d, cy, d>>, <<cx, cy, d>> >>
Px(img, w, x, y) == img[y * w + x + 1]
Square(q) == {<<x, y>> : x \in q[1]..(q[1] + q[3] - 1), y \in q[2]..(q[2] + q[3] - 1)}
Total(F(_), S) == MapThenSumSet(F, S)
\* pixels of a pupil: at least thr2 times the mean of what reaches thr1 between the darkest and the brightest
Lit(img, w, q, t1, t2) ==
  LET P == Square(q)
      v == TLCEval([p \in P |-> Px(img, w, p[1], p[2])])
      V == {v[p] : p \in P}
      s1 == 64 * SetMin(V) + (SetMax(V) - SetMin(V)) * t1
      th == TLCEval([p \in P |-> IF 64 * v[p] < s1 THEN 0 ELSE v[p]])
      pos == {p \in P : th[p] > 0}
      sum == Total(LAMBDA p : th[p], pos)
  IN IF pos = {} THEN {} ELSE {p \in P : th[p] * 64 * Cardinality(pos) >= sum * t2}
Pupil(img, w, q, t1, t2) ==
  LET L == Lit(img, w, q, t1, t2)
  IN [n |-> Cardinality(L), sx |-> Total(LAMBDA p : p[1], L), sy |-> Total(LAMBDA p : p[2], L)]
Cube(n) == n * n * n
ByPi(a) == ((a \div 355) * 113) + (((a % 355) * 113) \div 355)
\* pixels not farther from the centre of p than the radius of a disc of m pixels:
\* (n x - sx)^2 + (n y - sy)^2 <= n^2 m / pi
Disc(h, w, p, m) ==
  LET R2 == ByPi(p.n * p.n * m)
  IN {k \in 0..(h * w - 1) : LET dx == (p.n * (k % w)) - p.sx  dy == (p.n * (k \div w)) - p.sy IN dx * dx + dy * dy <= R2}
\* nearest integer to a/b - c/d
RoundDiff(a, b, c, d) == LET u == a * d - c * b  v == b * d IN (2 * u + v) \div (2 * v)
Order == <<2, 1, 3, 4>>
Move(h, w, S, dx, dy) == LET In == {k \in S : (k % w) + dx \in 0..(w - 1) /\ (k \div w) + dy \in 0..(h - 1)}
                         IN {k + (dy * w) + dx : k \in In}
\* what a measurement of an image gives: whether it succeeds, and per pupil its pixels, their number and sums
Measure(img, h, w, t1, t2, own) ==
  LET q == Quadrants(h, w)
      P == TLCEval([k \in 1..4 |-> Pupil(img, w, q[k], t1, t2)])
      m == SetMax({P[k].n : k \in 1..4})
      ok == \A k \in 1..4 : P[k].n > 0
      D1 == Disc(h, w, P[1], m)
      sets == [k \in 1..4 |-> IF own THEN Disc(h, w, P[k], P[k].n)
                              ELSE Move(h, w, D1, RoundDiff(P[k].sx, P[k].n, P[1].sx, P[1].n), RoundDiff(P[k].sy, P[k].n, P[1].sy, P[1].n))]
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, pup |-> [k \in 1..4 |-> sets[Order[k]]], geo |-> [k \in 1..4 |-> P[Order[k]]]]
(* p: t1, t2, dt (steps of an integration, 0 for none), tag, acc (<<>> when empty), last (last *)
(* frame), seen (its step), st (status), res (last successful measurement), when, files        *)
PyrInit(t1, t2, dt, tag, n) == [t1 |-> t1, t2 |-> t2, dt |-> dt, tag |-> tag, acc |-> Zeros(n), last |-> Zeros(n),
                                ok |-> TRUE, res |-> [ok |-> FALSE], when |-> -1, files |-> [f \in {} |-> 0]]
Set(old, new) == IF new = -1 THEN old ELSE new
PyrStep(p, c, fresh, frame, t, h, w, own, over) ==
  LET a == [p EXCEPT !.t1 = Set(p.t1, c.t1), !.t2 = Set(p.t2, c.t2), !.dt = Set(p.dt, c.dt),
                     !.tag = IF c.tag = "" THEN p.tag ELSE c.tag]
      last == IF fresh THEN frame ELSE p.last
      acc == IF a.dt = 0 THEN (IF p.dt = 0 THEN last ELSE Add(p.acc, last)) ELSE IF fresh THEN Add(p.acc, frame) ELSE p.acc
      due == a.dt = 0 \/ t % a.dt = 0
      r == IF due THEN Measure(acc, h, w, a.t1, a.t2, own) ELSE p.res
      b == [a EXCEPT !.last = last, !.acc = IF due THEN Zeros(h * w) ELSE acc,
                     !.ok = IF due THEN r.ok ELSE p.ok,
                     !.res = IF due /\ r.ok THEN r ELSE p.res,
                     !.when = IF due /\ r.ok THEN t ELSE p.when]
  IN IF c.save = "" \/ ~b.res.ok \/ (c.save \in DOMAIN p.files /\ ~over) THEN b
     ELSE [b EXCEPT !.files = [f \in DOMAIN p.files \cup {c.save} |-> IF f = c.save THEN b.res.pup ELSE p.files[f]]]
=============================================================================
