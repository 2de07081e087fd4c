SPECIFICATION MCSpec
CONSTANTS Alphabet <- StoreAlphabet
 Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Told StoreByHistory ShownIsStored BufferPrintedOnce
