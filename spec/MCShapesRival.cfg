CONSTANTS RULE = "point" NMAX = 2
INVARIANTS Conserved
SPECIFICATION Spec
