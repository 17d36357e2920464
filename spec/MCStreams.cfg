CONSTANTS Depth = 6
SPECIFICATION Spec
INVARIANT OwnAccepted
INVARIANT SharedRejected
CHECK_DEADLOCK FALSE
