INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Emit = FALSE
  MaxLen = 3
  Limit = 2
INVARIANTS Conserves Position Loops Caught
