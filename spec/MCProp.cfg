CONSTANTS
  MaxU = 3
  MaxS = 4
INIT Init
NEXT Next
INVARIANTS Content Linear Moved Turn Twice Emit
