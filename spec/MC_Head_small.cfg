SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 7
  Letters = {10, 13, 58}
  Sizes = {1, 2, 3, 5, 16}
INVARIANTS Right Exact Lazy
PROPERTY Ends
