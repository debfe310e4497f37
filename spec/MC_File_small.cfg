SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 7
  MaxChunk = 4
  MaxFiles = 3
  MaxPiece = 2
  Limits = {0,3}
  MaxPieces = 2
INVARIANTS LinesAreLines NothingLost Lossless Placed OnceSpilled
