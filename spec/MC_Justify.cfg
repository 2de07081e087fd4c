SPECIFICATION MCSpec
CONSTANTS Alphabet <- JustifyAlphabet
 Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Told Offsets BlocksJustified
