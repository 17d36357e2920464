INIT Init
NEXT Next
CONSTANT Steps = 5
INVARIANTS Exact Ranges Suffixes
