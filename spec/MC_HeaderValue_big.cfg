SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {97, 65, 59, 61, 34, 92, 32, 42}
  MaxLen = 7
INVARIANTS Cut Main Values Names Override Blanks
