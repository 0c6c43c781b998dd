SPECIFICATION MSpec
CONSTANTS Steps = {"0.3", "0.85"}
  Cells = 1
INVARIANTS Somewhere Inside Resting Closed Sides Reversible OneEnd Entering
CHECK_DEADLOCK FALSE
