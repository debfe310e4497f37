SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 10
  Letters = {10, 13, 58}
  Sizes = {1, 2, 3, 4, 5, 7, 20}
INVARIANTS Right Exact Lazy
