SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxBody = 8
  Chunk = 4
  Extra = 2
  Letters = {13, 45, 66}
  Delims = {"1", "2", "3", "4"}
INVARIANTS Right Prefix Bounded
