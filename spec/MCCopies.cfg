SPECIFICATION Spec
CONSTANTS N = 3
Depth = 3
INVARIANTS NoSharing AfterCopy Emit
PROPERTY Steps
CHECK_DEADLOCK FALSE
