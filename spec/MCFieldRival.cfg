INIT Init
NEXT Next
CONSTANTS
T = 3
Uses = {"dir", "wl", "mod"}
INVARIANTS Right 
CHECK_DEADLOCK FALSE
