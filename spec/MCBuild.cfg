INIT Init
NEXT Next
INVARIANT Right
