INIT Init
NEXT Next
CONSTANT Big = 5
INVARIANTS InRange Progress Full Maximal Back Ins
