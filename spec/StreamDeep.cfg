SPECIFICATION MSpec
CONSTANTS Steps = {"0.125", "0.3", "0.5", "0.85", "1.7"}
  Cells = 2
INVARIANTS Somewhere Inside Resting Closed Sides Reversible OneEnd Entering
CHECK_DEADLOCK FALSE
