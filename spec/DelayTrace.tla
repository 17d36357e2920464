----------------------------- MODULE DelayTrace -----------------------------
(* C13: what a filter publishes, frame by frame.  d4 = delay in quarters of a     *)
(* frame.  ev "run" [nd (undelayed output), out, reset, t, tn (timestamps), now],  *)
(* "look" [nd, out] between frames, "err".  tr.tok: values are tokens (exact       *)
(* comparison only, whole delays), 0 standing for the zero vector.                 *)
EXTENDS TraceBase, Filter
VARIABLES tid, i, line, last, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ line = LineStart(Traces[tid].d4, Traces[tid].n) /\ last = <<>> /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           CASE e.k = "run" ->
                  LET l0 == IF e.reset THEN LineStart(tr.d4, tr.n) ELSE line
                      l1 == LinePush(l0, e.nd)
                      want == Delayed(l1, tr.d4) IN
                  /\ line' = l1 /\ last' = <<e.nd, e.out>>
                  /\ bad' = IF e.out # want THEN
                               IF e.reset THEN "the delay line was not cleared by a reset"
                               ELSE IF tr.d4 % 4 = 0 THEN "the command is not the one issued d frames earlier"
                               ELSE "the command is not the interpolation of its neighbouring frames"
                            ELSE IF e.t # e.now \/ e.tn # e.now THEN "an output does not carry the time of its frame"
                            ELSE ""
             [] e.k = "look" -> /\ line' = line /\ last' = last
                                /\ bad' = IF last = <<>> \/ <<e.nd, e.out>> = last THEN "" ELSE "a published command changed before the next frame"
             [] e.k = "clear" -> line' = LineStart(tr.d4, tr.n) /\ UNCHANGED last /\ bad' = ""
             [] e.k = "err" -> line' = line /\ last' = last /\ bad' = "the filter failed"
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
