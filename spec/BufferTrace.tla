----------------------------- MODULE BufferTrace ----------------------------
(* C12: ev: "step" [t, f, out] (out[k] = [v, t] of the k-th output after the      *)
(* step), "finish" [t, out, err].                                                 *)
EXTENDS TraceBase, Buffer
VARIABLES tid, i, s, bad
tr == Traces[tid]
Cmp(want, got) ==
  IF \E k \in 1..tr.n : want[k].t # got[k].t
  THEN IF \E k \in 1..tr.n : want[k].t > got[k].t THEN "a batch was not emitted when it was due" ELSE "a batch was emitted when none was due"
  ELSE IF \E k \in 1..tr.n : Len(want[k].v) # Len(got[k].v) THEN "a batch has the wrong number of samples"
  ELSE IF \E k \in 1..tr.n : want[k].v # got[k].v THEN "a batch holds the wrong samples" ELSE ""
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[tid].n) /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           CASE e.k = "step" -> LET a == Step(tr.n, tr.size, s, e.t, e.f) IN s' = a /\ bad' = Cmp(a.out, e.out)
             [] e.k = "finish" -> LET a == Finish(tr.n, s, e.t) IN
                  s' = a /\ bad' = IF e.err # "" THEN "the run failed" ELSE Cmp(a.out, e.out)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
