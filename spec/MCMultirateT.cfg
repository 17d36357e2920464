INIT Init
NEXT Next
CONSTANT Len3 = 4
INVARIANT Inv
