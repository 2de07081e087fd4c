SPECIFICATION MCSpec
CONSTANTS
  Alphabet = {34, 92, 32, 10, 13, 39, 47, 48, 120, 49, 97, 233}
  MaxLen = 4
INVARIANTS FormsAgree QuotedReads LinesApart EndsAlike Comments Free Bytes8
CHECK_DEADLOCK FALSE
