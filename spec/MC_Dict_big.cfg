INIT Init
NEXT Next
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  Slots = 3
  Emit = FALSE
INVARIANTS Refines NoSharing ReadOnly
