----------------------------- MODULE FlowTrace -----------------------------
(* C02: traces of whole runs.  tr.init[o] = outputs after set-up;               *)
(* ev = one event per step: outs[o] = outputs after completion (<<>> if the     *)
(* object did not run), reads = <<object, reads>> in any phase of that step.    *)
EXTENDS TraceBase, Flow
VARIABLES tid, i, cur, bad
tr == Traces[tid]
Judge(e, prev) ==
  LET now == [o \in 1..tr.n |-> IF e.outs[o] = <<>> THEN prev[o] ELSE e.outs[o]]
      V(k) == ReadVerdict(tr.conns[e.reads[k][1]], e.reads[k][2], now, prev)
      fails == {k \in 1..Len(e.reads) : V(k) # ""}
      chg == {o \in 1..tr.n : e.before[o] # <<>> /\ e.before[o] # prev[o]}
  IN IF fails # {} THEN <<V(CHOOSE k \in fails : TRUE), now>>
     ELSE IF chg # {} THEN <<"a published output changed before its owner ran again", now>>
     ELSE <<"", now>>
Failed == tr.res # "ok"
Init == tid \in 1..Len(Traces) /\ i = 0 /\ cur = Traces[tid].init /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ IF Failed THEN bad' = "the run failed" /\ cur' = cur
           ELSE LET j == Judge(tr.ev[i+1], cur) IN bad' = j[1] /\ cur' = j[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
