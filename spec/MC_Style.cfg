SPECIFICATION MCSpec
CONSTANTS Alphabet <- StyleAlphabet
 Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Told StyleByHistory
PROPERTIES SpansKeepStyle OthersKeepStyle
