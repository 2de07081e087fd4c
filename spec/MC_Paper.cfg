SPECIFICATION MCSpec
CONSTANTS Alphabet <- PaperAlphabet
 Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Told BackByLines
PROPERTIES PaperForward StartsBelow
