INIT Init
NEXT Next
CONSTANT Steps = 4
INVARIANTS Same Time
