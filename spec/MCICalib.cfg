CONSTANTS
  T = 4
INIT Init
NEXT Next
INVARIANTS Mean Timed Kept Emit
