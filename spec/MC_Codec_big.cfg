SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Years = 99
  Start = {100, 1890, 9900}
  MaxNum = 60000
  MaxTag = 7
  TagChars = {34, 87, 47, 97, 44, 32, 42}
  Bytes0 = {0, 1, 127, 128, 254, 255, 65}
  MaxBytes = 6
INVARIANTS Calendar RoundTrip Known Base36 Tags Base64
