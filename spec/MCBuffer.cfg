INIT Init
NEXT Next
CONSTANT Steps = 6
INVARIANTS Exact Order Full Small
