---------------------------- MODULE LongExpTrace ----------------------------
(* C20: trace [start, ref (field -> samples), refy (the same, coarser), ev].          *)
(* ev: [k="run", t, f, q, ot], [k="look", q, ot] (not run: nothing changes),            *)
(*     [k="fin", t, r, s, ot] (published averages and deviations).                      *)
EXTENDS TraceBase, LongExp
VARIABLES tid, i, st, sy, last, bad
tr == Traces[tid]
N == Len(tr.ref[1])
Close(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= 1
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = Empty(N) /\ sy = Zeros(N) /\ last = [q |-> <<>>, ot |-> <<>>] /\ bad = ""
All(s, x) == \A k \in 1..Len(s) : s[k] = x
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the object failed" /\ UNCHANGED <<st, sy, last>>
           ELSE IF e.k = "run" THEN
             /\ st' = Frame(st, e.t, tr.start, tr.ref[e.f], tr.refy[e.f])
             /\ sy' = IF Counts(e.t, tr.start) THEN Add(sy, tr.refy[e.f]) ELSE sy
             /\ last' = [q |-> e.q, ot |-> e.ot]
             /\ bad' = IF ~All(e.ot, e.t) THEN "an instantaneous output was not published in this step"
                       ELSE IF ~Close(e.q, tr.ref[e.f]) THEN "an instantaneous output is not that of the current input"
                       ELSE ""
           ELSE IF e.k = "look" THEN
             /\ UNCHANGED <<st, sy, last>>
             /\ bad' = IF last.q # <<>> /\ (e.q # last.q \/ e.ot # last.ot) THEN "an instantaneous output changed in a step the object did not run" ELSE ""
           ELSE
             /\ UNCHANGED <<st, sy, last>>
             /\ bad' = IF ~MeanOf(st, e.r) THEN "a long-exposure output is not the mean over the steps from the start time"
                       ELSE IF ~DevOf(st, sy, e.s) THEN "a standard deviation is not that of the steps from the start time"
                       ELSE IF ~All(e.ot, e.t) THEN "the long-exposure outputs were not published at the end"
                       ELSE ""
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
