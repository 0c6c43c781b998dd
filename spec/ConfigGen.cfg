SPECIFICATION MSpec
CONSTANTS Chosen <- Settable
  MaxOps = 14
INVARIANTS AlwaysAllowed FilesAllowed Emit TableOut
CHECK_DEADLOCK FALSE
