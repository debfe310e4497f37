SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 7
  Chunk = 5
  Letters = {61, 32, 97, 57}
INVARIANTS Right Aligned
PROPERTY Ends
