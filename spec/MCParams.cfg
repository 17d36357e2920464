INIT Init
NEXT Next
INVARIANT Kept
