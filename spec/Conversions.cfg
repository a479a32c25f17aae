SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Some = {0, 1, 2, 9, 15, 16, 64, 127, 128, 160, 171, 254, 255}
  Chars = {47, 48, 57, 58, 64, 65, 70, 71, 97, 102, 103}
  MaxBytes = 3
  MaxChars = 3
INVARIANTS Inverses HexIsDigits
