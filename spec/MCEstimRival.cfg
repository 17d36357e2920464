CONSTANTS RULE = "either" L = 4 PERIOD = 2
INVARIANTS Once Bounded
PROPERTIES Quiet
SPECIFICATION Spec
