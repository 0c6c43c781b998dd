SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxRuns = 3
 Chks = {1, 2}
 MaxOps = 2
INVARIANTS Complete Uninterrupted NeverStuck CanFinish Recognised
PROPERTIES Survives OnlyOne
CHECK_DEADLOCK FALSE
