INIT Init
NEXT Next
CONSTANTS KEY = "written" L = 3
INVARIANTS Own Fresh
