SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  MaxY = 4
  MaxH = 3
  Apart = TRUE
  Glyph = {}
INVARIANTS TypeOK ReadWhereWritten EndsWhereWritten
CHECK_DEADLOCK FALSE
