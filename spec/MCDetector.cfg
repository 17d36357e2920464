INIT Init
NEXT Next
INVARIANTS Conserved Removed Near Bias Emit
