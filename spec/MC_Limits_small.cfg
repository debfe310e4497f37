SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 2
  MaxData = 3
  Piece = 2
INVARIANTS Exactly Held
PROPERTY Ends
