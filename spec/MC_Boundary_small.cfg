SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxBody = 5
  Chunk = 3
  Extra = 1
  Letters = {10, 13, 45, 66}
  Delims = {"1", "2"}
INVARIANTS Right Prefix Bounded
PROPERTY Ends
