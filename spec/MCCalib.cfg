INIT Init
NEXT Next
CONSTANTS Depth = 3
First = 1
NModes = 2
INVARIANTS Column Counted Emit
CHECK_DEADLOCK FALSE
