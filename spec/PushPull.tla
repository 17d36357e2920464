------------------------------ MODULE PushPull ------------------------------
(* The command sequence of a push-pull generator: modes first+1 .. n one after the other, each through its pattern    *)
(* (as many times as there are cycles, or every position repeated, or the whole sequence repeated), every position      *)
(* held for some samples.  amp: per moved mode; p: [n, first, pattern, amp, cycles, samples, each, full].                *)
EXTENDS Vec, Integers, Sequences
Pattern(p) == IF p.full THEN p.pattern
              ELSE IF p.each THEN Spread(p.pattern, [k \in 1..Len(p.pattern) |-> p.cycles])
              ELSE Flat(Repeat(p.pattern, p.cycles))
OneMode(p, m) == [k \in 1..Len(Pattern(p)) |-> [j \in 1..p.n |-> IF j = m THEN p.amp[m - p.first] * Pattern(p)[k] ELSE 0]]
Sweep(p) == Flat([m \in 1..(p.n - p.first) |-> OneMode(p, m + p.first)])
Commands(p) == LET s == IF p.full THEN Flat(Repeat(Sweep(p), p.cycles)) ELSE Sweep(p)
               IN Spread(s, [k \in 1..Len(s) |-> p.samples])
=============================================================================
