----------------------------- MODULE PhaseTrace -----------------------------
EXTENDS TraceBase, Phase
VARIABLES tid, i, s, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Event(tr, s, tr.ev[i+1]) IN bad' = r[1] /\ s' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
