SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 9
  MaxChunk = 5
  MaxFiles = 3
  MaxPiece = 3
  Limits = {0,2,4,5,9}
  MaxPieces = 3
INVARIANTS LinesAreLines NothingLost Lossless Placed OnceSpilled
