SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 4
  MaxData = 4
  Piece = 3
INVARIANTS Exactly Held
