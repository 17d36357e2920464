SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANT FreshWhenReady
