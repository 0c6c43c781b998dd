CONSTANTS
  Period = 3
  MaxN = 7
  Ends = {1999999999, 2500, 4200}
  Intervals = {1, 2, 3, 1000000000}
  Starts = {0, 2, 5}
SPECIFICATION Spec
INVARIANTS ClockRuns StopsInTime SolutionsComplete CheckpointsComplete TableComplete Silent LastStateKept Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
