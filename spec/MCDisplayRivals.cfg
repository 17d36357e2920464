CONSTANTS
  MaxEv = 5
  Rivals = TRUE
INIT Init
NEXT Next
INVARIANTS InOrder Complete Reports Ends Emit
