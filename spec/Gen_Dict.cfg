INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  Slots = 3
  Emit = TRUE
