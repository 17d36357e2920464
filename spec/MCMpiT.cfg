SPECIFICATION Spec
CONSTANTS N = 3
 Ranks = 2
 Steps = 2
 Kinds = {"full", "late", "hold", "never"}
 EdgeKinds = {"no", "imm", "del", "both"}
INVARIANT NoDeadlock
INVARIANT Right
INVARIANT Clean
