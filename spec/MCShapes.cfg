CONSTANTS RULE = "area" NMAX = 7
INVARIANTS Conserved Blocks Inside Obstructed Symmetric Numbered Gradient Emit
SPECIFICATION Spec
