SPECIFICATION Spec
CONSTANTS MaxOps = 7
INVARIANT FreshWhenReady
