INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Setters = TRUE
  NReq = 1
  Depth = 4
  Emit = TRUE
  Full = TRUE
