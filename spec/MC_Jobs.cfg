SPECIFICATION MCSpec
CONSTANTS Alphabet <- JobsAlphabet
 Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Told OneJob EndsOnce
