CONSTANTS
  MaxEv = 5
  Rivals = FALSE
INIT Init
NEXT Next
INVARIANTS InOrder Complete Reports Ends Emit
