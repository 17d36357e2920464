INIT Init
NEXT Next
CONSTANTS
Steps = 4
Winds <- WindSet
INVARIANTS Lost Below IntPart Moved Lines
