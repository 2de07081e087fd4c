SPECIFICATION MCSpec
CONSTANTS
  Alphabet = {27, 64, 34, 92, 29, 107, 10, 0, 195}
  MaxLen = 4
INVARIANTS RoundTrip Said
CHECK_DEADLOCK FALSE
