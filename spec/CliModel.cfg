SPECIFICATION MSpec
CONSTANTS MaxArgs = 2
  MaxOps = 7
  Pool <- SmallPool
INVARIANTS OnlyNamed StaysAllowed NotEarly
VIEW View
CHECK_DEADLOCK FALSE
