SPECIFICATION MSpec
CONSTANTS N = 2
  Objs = {"a", "b"}
  Qs = {2, 3}
  Vals = {1, 2}
  MaxOps = 5
INVARIANTS Shape
PROPERTIES OneAtATime
VIEW View
CHECK_DEADLOCK FALSE
