SPECIFICATION GSpec
CONSTANTS N = 6
  Objs = {"a", "b", "c"}
  Qs = {2, 3}
  Vals = {1, 2, 5, 7}
  MaxOps = 14
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
