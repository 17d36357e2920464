---------------------------- MODULE ReplayTrace -----------------------------
(* C11: tr.P the original parameters.  Events:                                  *)
(*  file     [targets (<<>> = whole run), R, src, head, same]                    *)
(*  reads    [o, t, orig, replay]: reads of object o at step t in both runs       *)
(*  end      [res] outcome of running the replay file                            *)
EXTENDS TraceBase, Replay
VARIABLES tid, i, bad
tr == Traces[tid]
Judge(e) ==
  CASE e.k = "file" ->
        IF e.err # "" THEN "the replay file could not be built"
        ELSE IF ~e.same THEN "the original parameters were changed"
        ELSE IF ~e.head THEN "the data source block is wrong"
        ELSE Verdict(tr.P, IF e.targets = <<>> THEN Kept(tr.P) ELSE Targeted(tr.P, "main", Elems(e.targets)), e.R, e.src)
    [] e.k = "reads" -> IF e.orig = e.replay THEN "" ELSE "an object of the replay read something else"
    [] e.k = "end" -> IF e.res = "ok" THEN "" ELSE "the replay file does not run"
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ bad' = Judge(tr.ev[i+1])
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
