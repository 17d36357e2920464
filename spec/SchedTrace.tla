----------------------------- MODULE SchedTrace -----------------------------
EXTENDS TraceBase, Sched
VARIABLES tid, bad
G(tr) == [n |-> tr.n, imm |-> Rng(tr.imm), del |-> Rng(tr.del)]
Judge(tr) == LET e == tr.ev[1] IN Verdict(G(tr), e.res, e.order, e.grp)
Init == tid \in 1..Len(Traces) /\ bad = "?"
Next == /\ bad = "?" /\ bad' = Judge(Traces[tid]) /\ UNCHANGED tid
        /\ Say(Traces[tid].id, 1, bad')
=============================================================================
