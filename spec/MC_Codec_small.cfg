SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Years = 3
  Start = {100, 1899, 1969, 1999, 9990}
  MaxNum = 3000
  MaxTag = 5
  TagChars = {34, 87, 47, 97, 44, 32, 42}
  Bytes0 = {0, 1, 127, 128, 254, 255, 65}
  MaxBytes = 4
INVARIANTS Calendar RoundTrip Known Base36 Tags Base64
