CONSTANTS MaxN = 3
 MaxRuns = 3
 Restarts = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Uninterrupted NeverStuck Progress OnTrack
CHECK_DEADLOCK FALSE
