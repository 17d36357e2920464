------------------------------ MODULE MCSources ------------------------------
EXTENDS Sources, TLC, Json
CONSTANTS RULE, OPS
VARIABLES w, hist, out, q, t
vars == <<w, hist, out, q, t>>
Worlds == {[what |-> "disc", n |-> n] : n \in {2, 4, 6, 8, 10, 12, 14}}
    \cup {[what |-> "gauss", n |-> n, F |-> F] : n \in {4, 6, 10}, F \in {2, 4, 8}}
    \cup {[what |-> "psf", S |-> S, ps |-> ps] : S \in 3..9, ps \in {100, 170, 230, 290}}
    \cup {[what |-> "crop", n |-> n, m |-> m] : n \in 3..8, m \in 3..8}
    \cup {[what |-> "input"]}
Init == w \in Worlds /\ hist = <<>> /\ out = NoOut /\ q = <<>> /\ t = 1
Put(n, v) == /\ hist' = Append(hist, <<"put", n, v>>) /\ q' = Append(q, <<n, v>>) /\ UNCHANGED <<w, out, t>>
Do == /\ hist' = Append(hist, <<"step">>) /\ out' = Step(out, q, t) /\ q' = <<>> /\ t' = t + 1 /\ UNCHANGED w
Next == /\ w.what = "input" /\ Len(hist) < OPS
        /\ \/ \E n \in {"a", "b", "x"} : \E v \in 1..2 : Put(n, v)
           \/ Do
Spec == Init /\ [][Next]_vars
\* sources are symmetric
Turned(S) == {<<p[2], -p[1]>> : p \in S} = S /\ {<<p[2], p[1]>> : p \in S} = S
Symmetric == (w.what = "disc" => Turned(DiscGrid(w.n))) /\ (w.what = "gauss" => Turned(GaussGrid(w.n, w.F)))
InDisc == w.what = "disc" => \A p \in DiscGrid(w.n) : p[1] * p[1] + p[2] * p[2] < w.n * w.n
Falls == w.what = "gauss" => \A p \in GaussGrid(w.n, w.F) : GaussAt(p[1], p[2], w.F) <= 1000000 /\ (Abs(p[1]) > 1 => GaussAt(Abs(p[1]) - 2, p[2], w.F) >= GaussAt(p[1], p[2], w.F))
\* a star in the central pixel is a source in the direction of the star
Delta(S) == [i \in 1..S |-> [j \in 1..S |-> IF i = S \div 2 + 1 /\ j = S \div 2 + 1 THEN 9 ELSE 0]]
Centred == w.what = "psf" =>
  LET mp == MaxPix(w.S, w.ps, 100)  N == OddUp(mp)
      at(i) == Round(1000 * PsfGrid(i, mp, 100), w.ps) + Centre(w.S, RULE)
      ok(i) == at(i) >= 0 /\ at(i) < 1000 * (w.S - 1)
      v(i, j) == IF ok(i) /\ ok(j) THEN Bilin(Delta(w.S), at(i), at(j)) ELSE 0
      tot == MapThenSumSet(LAMBDA p : v(p[1], p[2]), (0..N-1) \X (0..N-1))
      mom == MapThenSumSet(LAMBDA p : (v(p[1], p[2]) * PsfGrid(p[2], mp, 100)) \div 100, (0..N-1) \X (0..N-1))
  IN (N > 1 /\ tot > 0) => Abs(mom) <= tot \div 10 + N * N
Kept == w.what = "crop" /\ (w.n - w.m) % 2 = 0 => Recentred(Delta(w.n), w.m) = Delta(w.m)
\* the outputs hold the last value put before the last step, dated with the first step after it
Before(k) == {j \in 1..k : hist[j][1] = "put"}
LastStep == LET s == {k \in 1..Len(hist) : hist[k][1] = "step"} IN IF s = {} THEN 0 ELSE Max(s)
Fresh == w.what = "input" => \A n \in Known :
  LET ps == {j \in Before(LastStep) : hist[j][2] = n}
  IN IF ps = {} THEN out[n] = [v |-> 0, t |-> -1]
     ELSE /\ out[n].v = hist[Max(ps)][3]
          /\ out[n].t = 1 + Cardinality({k \in 1..Max(ps) : hist[k][1] = "step"})
Replayed == w.what = "input" /\ hist # <<>> /\ hist[Len(hist)][1] = "step" => LET p == Played(hist, NoOut, <<>>, 1) IN p[Len(p)] = out
Emit == (w.what = "input" /\ hist # <<>> /\ hist[Len(hist)][1] = "step" /\ Len(hist) >= OPS - 1) => PrintT("BEH " \o ToJson([ops |-> hist]))
===============================================================================
