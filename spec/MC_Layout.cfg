SPECIFICATION MCSpec
CONSTANTS Alphabet <- LayoutAlphabet
 Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Told NothingLost InsideLine LeftToRight LineHeights
