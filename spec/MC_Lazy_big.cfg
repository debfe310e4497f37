INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  Emit = FALSE
  MaxLen = 4
  Limit = 2
INVARIANTS Conserves Position Loops Caught
