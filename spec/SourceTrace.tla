----------------------------- MODULE SourceTrace ----------------------------
(* C10: replay.  ev: "step"/"finish" as in StoreTrace (what was published in the  *)
(* recorded run), then "types" [want, got], then "replay" [t, vals], vals[k] =    *)
(* <<token, time>> seen on output k of the data source at step t.                 *)
EXTENDS TraceBase, Store
VARIABLES tid, i, s, cur, bad
tr == Traces[tid]
c == tr.c
Saved(k) == CatF(s.chunks, k)
At(k, t) == {m \in 1..Len(Saved(k)) : Saved(k)[m][1] = t}
\* <<token, time>> of the replayed output after step t
After(k, t, old) == IF At(k, t) = {} THEN old ELSE <<Saved(k)[CHOOSE m \in At(k, t) : TRUE][2], t>>
Replay(e, want) ==
  LET b == {k \in 1..c.n : e.vals[k] # want[k] /\ ~(want[k][2] = -1 /\ e.vals[k][2] = -1)}
  IN IF b = {} THEN ""
     ELSE LET k == CHOOSE x \in b : TRUE IN
       IF At(k, e.t) = {} THEN (IF e.vals[k][2] # want[k][2] THEN "something was published at a time without a sample"
                                ELSE "the value changed at a time without a sample")
       ELSE IF e.vals[k][2] # want[k][2] THEN "a recorded sample was not published, or with the wrong time"
       ELSE "the published value is not the recorded one"
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[tid].c) /\ bad = "" /\ cur = [k \in 1..Traces[tid].c.n |-> <<0, -1>>]
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           CASE e.k = "step" -> s' = Step(c, s, e.t, e.f) /\ bad' = "" /\ cur' = cur
             [] e.k = "finish" -> s' = Finish(c, s, e.t, e.f) /\ bad' = "" /\ cur' = cur
             [] e.k = "types" -> /\ s' = s /\ cur' = cur
                                 /\ bad' = IF e.want = e.got THEN "" ELSE "the restored object differs in type or attributes"
             [] e.k = "fail" -> s' = s /\ cur' = cur /\ bad' = "the recording or the replay failed"
             [] e.k = "replay" -> LET n == [k \in 1..c.n |-> After(k, e.t, cur[k])] IN
                                  s' = s /\ cur' = n /\ bad' = Replay(e, n)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
