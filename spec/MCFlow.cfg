SPECIFICATION Spec
CONSTANTS N = 3
 Steps = 2
INVARIANT Promise
