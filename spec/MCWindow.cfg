INIT Init
NEXT Next
CONSTANT Steps = 7
INVARIANTS Windows All Rest
