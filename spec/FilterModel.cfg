SPECIFICATION MSpec
CONSTANTS Orders = {1, 2, 3}
  Dims = {2}
  MaxApplied = 3
INVARIANTS Range01 Falling LowKept TopDamped RoundTrip MeanKept ConstantKept Modal Told
CHECK_DEADLOCK FALSE
