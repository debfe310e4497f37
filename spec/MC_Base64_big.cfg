SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 9
  Chunk = 9
  Letters = {61, 10, 97, 47}
INVARIANTS Right Aligned
