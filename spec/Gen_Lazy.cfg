INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  Emit = TRUE
  MaxLen = 3
  Limit = 40
