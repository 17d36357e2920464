CONSTANTS
  T = 5
  MaxWin = 3
INIT Init
NEXT Next
INVARIANTS Weights Level Own Bound Flip Flat4
