INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Setters = TRUE
  NReq = 1
  Depth = 12
  Emit = FALSE
  Full = TRUE
INVARIANTS Idempotent HeadFirst OwnHead OwnBody Conserved BodyTwice FormRefuses NothingShown NoTruncation OwnCharset Shows Placed Processed
