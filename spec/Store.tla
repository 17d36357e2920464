------------------------------- MODULE Store --------------------------------
(* C09/C10: recording.  Configuration c = [n (inputs), start, factor (per        *)
(* input), split, first].  In every step the recorder is given f[k] = token of   *)
(* the value published by input k with the timestamp of the step, 0 if none.     *)
(* Chunks are [suffix, files], files[k] = sequence of <<time, token>>.           *)
EXTENDS Integers, Sequences, FiniteSets
Empty(c) == [k \in 1..c.n |-> <<>>]
Start(c) == [mem |-> Empty(c), count |-> [k \in 1..c.n |-> 0], iters |-> 0, chunks |-> <<>>]
Any(f) == \E k \in 1..Len(f) : f[k] # 0
Take(c, s, t, f) ==
  [s EXCEPT !.mem = [k \in 1..c.n |-> IF f[k] # 0 /\ s.count[k] % c.factor[k] = 0
                                      THEN Append(s.mem[k], <<t, f[k]>>) ELSE s.mem[k]],
            !.count = [k \in 1..c.n |-> IF f[k] # 0 THEN s.count[k] + 1 ELSE s.count[k]]]
Close(c, s, suffix) == [s EXCEPT !.chunks = Append(s.chunks, [suffix |-> suffix, files |-> s.mem]), !.mem = Empty(c)]
Step(c, s, t, f) ==
  IF ~Any(f) \/ t < c.start THEN s
  ELSE LET a == [Take(c, s, t, f) EXCEPT !.iters = s.iters + 1] IN
       IF c.split > 0 /\ a.iters % c.split = 0 THEN Close(c, a, a.iters - c.split + c.first) ELSE a
\* after the last step: values published while finalizing, then the rest is written
Finish(c, s, t, f) ==
  LET a == IF t < c.start THEN s ELSE Take(c, s, t, f) IN
  IF c.split = 0 THEN Close(c, a, -1)
  ELSE IF a.mem = Empty(c) THEN a
  ELSE Close(c, a, a.iters - (a.iters % c.split) + c.first)
RECURSIVE CatF(_, _)
CatF(chunks, k) == IF chunks = <<>> THEN <<>> ELSE Head(chunks).files[k] \o CatF(Tail(chunks), k)
=============================================================================
