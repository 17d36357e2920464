INIT Init
NEXT Next
CONSTANT Len3 = 3
INVARIANT Inv
