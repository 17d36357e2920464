INIT Init
NEXT Next
INVARIANTS Once Ordered Held Grp Sched Done
