SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {97, 65, 59, 61, 34, 92, 32}
  MaxLen = 6
INVARIANTS Cut Main Values Names Override Blanks
