SPECIFICATION Spec
CONSTANTS N = 3
 Emit = TRUE
INVARIANTS Correct Terminates EmitGraph
