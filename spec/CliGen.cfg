SPECIFICATION MSpec
CONSTANTS MaxArgs = 3
  MaxOps = 16
  Pool <- SmallPool
INVARIANTS OnlyNamed StaysAllowed NotEarly Emit PoolOut
CHECK_DEADLOCK FALSE
