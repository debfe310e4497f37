SPECIFICATION Spec
CONSTANTS
  Chars = {97, 47, 37, 50, 70, 63, 35, 91, 126, 233, 8364, 32}
  MaxLen = 5
INVARIANTS Ascii Visible Idempotent Kept Reversible ReversiblePath SameMeaning OneQuery Leading
CHECK_DEADLOCK FALSE
