SPECIFICATION MCSpec
CONSTANTS Alphabet <- PageAlphabet
 Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Told PageTurns LastAreaInside
PROPERTIES PageKeepsPaper PagePrinted PageGrows
