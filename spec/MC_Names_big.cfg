SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Lim = 2
  Letters = {97, 46, 47, 92, 32, 59, 38, 34}
INVARIANTS NoSeparator Fits Stable Component Extension Comes
