CONSTANTS
  H = 8
  T1s = {6, 32}
  T2s = {16, 48}
INIT Init
NEXT Next
INVARIANTS Found Bright Alike Swapped Emit
