INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Setters = FALSE
  NReq = 2
  Depth = 4
  Emit = FALSE
  Full = FALSE
INVARIANTS Idempotent HeadFirst OwnHead OwnBody Conserved BodyTwice FormRefuses NothingShown NoTruncation OwnCharset
