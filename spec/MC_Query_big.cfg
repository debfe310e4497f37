SPECIFICATION Spec
CONSTANTS
  Chars = {97, 38, 61, 37, 233}
  Cs = {"utf8", "latin1", "ascii"}
  MaxPairs = 2
  MaxText = 2
  QTokens = {97, 38, 59, 61, 37, 43, 1001, 1002, 233}
  MaxQ = 5
INVARIANTS RoundTrip Again Limit Fields Order
CHECK_DEADLOCK FALSE
