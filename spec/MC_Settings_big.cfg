INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 3
  OneName = FALSE
  Blind = FALSE
INVARIANTS Right Clean
