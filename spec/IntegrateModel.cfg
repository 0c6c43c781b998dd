SPECIFICATION MSpec
CONSTANTS MaxSteps = 4
INVARIANTS Ordered Second2 Accepted1 Rejected1 Steady1 Close Decays Tracks
CHECK_DEADLOCK FALSE
