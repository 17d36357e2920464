SPECIFICATION Spec
CONSTANTS N = 3
 Ranks = 2
 Steps = 2
 Kinds = {"full", "late", "hold"}
 EdgeKinds = {"no", "imm", "del"}
INVARIANT NoDeadlock
INVARIANT Right
INVARIANT Clean
