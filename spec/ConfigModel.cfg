SPECIFICATION MSpec
CONSTANTS Chosen = {"CFL", "Prandtl", "Flux", "WallCoordinates"}
  MaxOps = 4
INVARIANTS AlwaysAllowed FilesAllowed RoundTrip
VIEW View
CHECK_DEADLOCK FALSE
