INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 2
  OneName = FALSE
  Blind = FALSE
INVARIANTS Right Clean
