---------------------------- MODULE StreamsTrace ----------------------------
(* C28.  The draws of several runs (in several processes) of one set of declared objects: ev as in Streams, or [err].    *)
EXTENDS TraceBase, Streams
VARIABLES tid, i, seen, bad
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ seen = {} /\ bad = ""
Next == /\ i < Len(Tr.ev) /\ bad = ""
        /\ LET e == Tr.ev[i + 1] IN
           IF "err" \in DOMAIN e THEN bad' = "an object with random data fails" /\ UNCHANGED seen
           ELSE bad' = Judge(seen, e) /\ seen' = See(seen, e)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(Tr.ev)) => Say(Tr.id, i', bad')
=============================================================================
