SPECIFICATION MSpec
CONSTANTS Ids = {0, 1, 2, 3, 4}
  MaxOps = 9
INVARIANTS PairedBoth OneCondition JoinedSides Emit
CHECK_DEADLOCK FALSE
