----------------------------- MODULE GateTrace -----------------------------
(* C03: the readiness protocol of one object.  State: flag (ready), the times   *)
(* of its outputs.  Events: check / trigger / post with what they returned.     *)
EXTENDS TraceBase, Flow
VARIABLES tid, i, flag, outs, bad
tr == Traces[tid]
Judge(e) ==
  CASE e.k = "check" ->
        IF e.res # "ok" THEN "readiness check failed with an error"
        ELSE IF ~e.ready /\ e.outs # outs THEN "outputs changed although the object did not run"
        ELSE IF e.ready # ReadyRule(e.inputs, e.t) THEN
             IF e.ready THEN "declared ready without fresh data" ELSE "fresh data did not make the object ready"
        ELSE ""
   [] e.k = "trigger" ->
        IF flag /\ e.res # "ok" THEN "trigger refused although ready"
        ELSE IF ~flag /\ e.res # "refused" THEN "trigger accepted although not ready"
        ELSE IF ~flag /\ e.outs # outs THEN "a refused trigger changed the outputs"
        ELSE ""
   [] e.k = "post" ->
        IF flag /\ e.res # "ok" THEN "completion refused although ready"
        ELSE IF ~flag /\ e.res # "refused" THEN "completion accepted although not ready"
        ELSE IF ~flag /\ e.outs # outs THEN "a refused completion changed the outputs"
        ELSE ""
   [] e.k = "ran" ->      \* whole-run traces: did the loop run it, given the readiness decision?
        IF e.ran # flag THEN IF e.ran THEN "ran without being ready" ELSE "ready but did not run"
        ELSE ""
   [] OTHER -> "unknown event"
Init == tid \in 1..Len(Traces) /\ i = 0 /\ flag = FALSE /\ outs = Traces[tid].init /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           /\ bad' = Judge(e)
           /\ flag' = IF e.k = "check" THEN e.ready ELSE IF e.k = "post" \/ e.k = "ran" THEN FALSE ELSE flag
           /\ outs' = e.outs
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
