SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxBody = 7
  Chunk = 4
  Extra = 1
  Letters = {10, 13, 45, 66}
  Delims = {"1", "2", "3", "4"}
INVARIANTS Right Prefix Bounded
