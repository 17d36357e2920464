SPECIFICATION Spec
CONSTANTS RULE = "half" OPS = 1
INVARIANTS Centred
CHECK_DEADLOCK FALSE
