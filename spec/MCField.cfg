INIT Init
NEXT Next
CONSTANTS
T = 3
Uses = {"dir", "wl", "start", "mod"}
INVARIANTS Right Kept Again Emit
CHECK_DEADLOCK FALSE
