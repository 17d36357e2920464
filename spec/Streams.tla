------------------------------ MODULE Streams ------------------------------
(* Random streams.  A stream is named by the parameters that matter to it, its own seed among them (k); streams of one  *)
(* group g differ in nothing but their seed.  Draw number n of a stream is always the same, whatever else was built     *)
(* or drawn before, in this run, in another run or in another process; draws of other seeds and other draws of the      *)
(* same stream differ.  seen: the draws observed so far, e: [k, g, n, c (content), d (contents of this kind tell draws  *)
(* apart), parts (the layers of one draw, each with a stream of its own)].                                              *)
EXTENDS Integers, Sequences, FiniteSets
Judge(seen, e) ==
  IF \E r \in seen : r.k = e.k /\ r.n = e.n /\ r.c # e.c THEN "a draw depends on something else than its own stream"
  ELSE IF e.d /\ \E r \in seen : r.d /\ r.g = e.g /\ r.k # e.k /\ r.n = e.n /\ r.c = e.c THEN "distinct seeds give the same draw"
  ELSE IF e.d /\ \E r \in seen : r.k = e.k /\ r.n # e.n /\ r.c = e.c THEN "a stream repeats a draw"
  ELSE IF Cardinality({e.parts[j] : j \in 1..Len(e.parts)}) < Len(e.parts) THEN "two layers show the same turbulence"
  ELSE ""
See(seen, e) == seen \union {[k |-> e.k, g |-> e.g, n |-> e.n, c |-> e.c, d |-> e.d]}
=============================================================================
