SPECIFICATION Spec
CONSTANTS N = 3
 MaxT = 6
INVARIANT Accepted
INVARIANT Complete
