INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Setters = FALSE
  NReq = 2
  Depth = 3
  Emit = TRUE
  Full = FALSE
