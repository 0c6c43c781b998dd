CONSTANTS MaxN = 6
 MaxRuns = 4
 Restarts = {1, 2, 3, 4}
SPECIFICATION GSpec
INVARIANTS Uninterrupted Emit
CHECK_DEADLOCK FALSE
