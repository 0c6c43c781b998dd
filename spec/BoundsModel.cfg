SPECIFICATION MSpec
CONSTANTS Ids = {0, 1, 2, 3, 4}
  MaxOps = 4
INVARIANTS PairedBoth OneCondition JoinedSides
PROPERTIES Kept
VIEW View
CHECK_DEADLOCK FALSE
