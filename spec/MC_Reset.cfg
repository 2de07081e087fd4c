SPECIFICATION MCSpec
CONSTANTS Alphabet <- ResetAlphabet
 Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Told AfterReset
