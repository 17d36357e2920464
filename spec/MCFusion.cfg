INIT Init
NEXT Next
CONSTANT Frames = 6
INVARIANTS Once Track
