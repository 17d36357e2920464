INIT Init
NEXT Next
CONSTANTS KEY = "size" L = 3
INVARIANTS Own Fresh
