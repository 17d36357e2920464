------------------------------- MODULE Signal --------------------------------
(* C18: what generators declare for each step.                                     *)
EXTENDS Vec
\* schedule: values[1] before times[1], values[k+1] from times[k] on
Entry(times, t) == 1 + SumTo(LAMBDA k : IF times[k] <= t THEN 1 ELSE 0, Len(times))
Scheduled(values, times, groups, t) == Spread(values[Entry(times, t)], groups)
\* push-pull: p = [nm, first, amps (of modes first..nm-1), pat, nc, ns, rep, full]; k counts from 0
Pokes(p) == Len(p.pat) * (p.nm - p.first) * p.nc
Length(p) == Pokes(p) * p.ns
PokeMode(p, k) ==
  LET q == k \div p.ns np == Len(p.pat) IN
  IF p.full THEN p.first + (q % (np * (p.nm - p.first))) \div np
  ELSE p.first + q \div (np * p.nc)
PokeSign(p, k) ==
  LET q == k \div p.ns np == Len(p.pat) IN
  IF ~p.full /\ p.rep THEN p.pat[((q % (np * p.nc)) \div p.nc) + 1] ELSE p.pat[(q % np) + 1]
PushPull(p, k) == [c \in 1..p.nm |-> IF c - 1 = PokeMode(p, k) THEN PokeSign(p, k) * p.amps[c - p.first] ELSE 0]
\* radial order of the mode-th Zernike mode (mode 0 is tip)
Radial(mode) == CHOOSE n \in 1..60 : (n + 1) * (n + 2) >= 2 * (mode + 2) /\ n * (n + 1) < 2 * (mode + 2)
\* recorded rows, last one held
Row(h, k) == IF k < Len(h) THEN h[k+1] ELSE h[Len(h)]
\* waves sampled at multiples of an eighth of a turn (units 1/1000)
Eighth == [SIN |-> <<0, 707, 1000, 707, 0, -707, -1000, -707>>,
           SQUARE |-> <<0, 1000, 1000, 1000, 0, -1000, -1000, -1000>>,
           TRIANGLE |-> <<0, 500, 1000, 500, 0, -500, -1000, -500>>]
Wave(type, turn8, amp, slope, const, t) == amp * Eighth[type][(turn8 % 8) + 1] + 1000 * (slope * t + const)
=============================================================================
