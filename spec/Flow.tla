-------------------------------- MODULE Flow --------------------------------
(* Data flow through one run.  Every object o owns a sequence of outputs, each *)
(* a pair <<token, time>>.  A connection is [s |-> producer, k |-> output      *)
(* index, d |-> 0 or -1].  cur = outputs at the end of this step, prev = at    *)
(* the end of the previous step.                                               *)
EXTENDS Integers, Sequences, FiniteSets

Expected(ref, cur, prev) == IF ref.d = 0 THEN cur[ref.s][ref.k] ELSE prev[ref.s][ref.k]

\* reads: one sequence of <<token, time>> per input; conns: one sequence of connections per input
ReadVerdict(conns, reads, cur, prev) ==
  IF Len(reads) # Len(conns) THEN "number of inputs"
  ELSE IF \E j \in 1..Len(conns) : Len(reads[j]) # Len(conns[j]) THEN "number of values delivered to an input"
  ELSE IF \E j \in 1..Len(conns) : \E m \in 1..Len(conns[j]) :
            conns[j][m].d = 0 /\ reads[j][m] # Expected(conns[j][m], cur, prev)
    THEN "immediate input does not carry this step's value"
  ELSE IF \E j \in 1..Len(conns) : \E m \in 1..Len(conns[j]) :
            conns[j][m].d # 0 /\ reads[j][m] # Expected(conns[j][m], cur, prev)
    THEN "delayed input does not carry the previous step's value"
  ELSE ""

\* The readiness rule (C03).  inputs: sequence of [opt, single, vals] with vals a sequence of times
ReadyRule(inputs, t) ==
  \/ Len(inputs) = 0
  \/ \A j \in 1..Len(inputs) : inputs[j].opt /\ inputs[j].single /\ Len(inputs[j].vals) = 0
  \/ \E j \in 1..Len(inputs) : \E m \in 1..Len(inputs[j].vals) : inputs[j].vals[m] >= t
=============================================================================
