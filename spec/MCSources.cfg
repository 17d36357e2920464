SPECIFICATION Spec
CONSTANTS RULE = "pixel" OPS = 5
INVARIANTS Symmetric InDisc Falls Centred Kept Fresh Replayed Emit
CHECK_DEADLOCK FALSE
