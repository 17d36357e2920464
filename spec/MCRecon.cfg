INIT Init
NEXT Next
CONSTANT Steps = 3
INVARIANTS Same Time
