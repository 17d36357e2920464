------------------------------- MODULE Buffer -------------------------------
(* C12: batching.  f[k] = token of the value input k published in this step, 0   *)
(* if none.  The buffer runs in every step in which some input is fresh; after   *)
(* every size-th such step what was collected is emitted, at the end the rest.   *)
EXTENDS Integers, Sequences, FiniteSets
None(n) == [k \in 1..n |-> <<>>]
Start(n) == [mem |-> None(n), ran |-> 0, out |-> [k \in 1..n |-> [v |-> <<>>, t |-> -1]], emitted |-> None(n)]
Any(f) == \E k \in 1..Len(f) : f[k] # 0
Emit(n, s, t) ==
  [s EXCEPT !.out = [k \in 1..n |-> IF s.mem[k] = <<>> THEN s.out[k] ELSE [v |-> s.mem[k], t |-> t]],
            !.emitted = [k \in 1..n |-> s.emitted[k] \o s.mem[k]],
            !.mem = None(n), !.ran = 0]
Step(n, size, s, t, f) ==
  IF ~Any(f) THEN s
  ELSE LET a == [s EXCEPT !.mem = [k \in 1..n |-> IF f[k] # 0 THEN Append(s.mem[k], f[k]) ELSE s.mem[k]],
                          !.ran = s.ran + 1]
       IN IF a.ran = size THEN Emit(n, a, t) ELSE a
Finish(n, s, t) == IF s.ran > 0 THEN Emit(n, s, t) ELSE s
=============================================================================
