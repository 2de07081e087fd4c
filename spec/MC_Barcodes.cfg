SPECIFICATION MCSpec
CONSTANTS Free = {0, 2, 3, 5, 9}
INVARIANTS Ean13Reads Ean8Reads Ean8Checked UpcEStands UpcEChecked UpcAReads ItfReads Code128Reads Code39Reads
CHECK_DEADLOCK FALSE
