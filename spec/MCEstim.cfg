CONSTANTS RULE = "both" L = 4 PERIOD = 2
INVARIANTS Once Own Bounded
PROPERTIES Quiet
SPECIFICATION Spec
