SPECIFICATION MCSpec
CONSTANTS Alphabet <- CodesAlphabet
 Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Told PrintedIsStored SettingsByHistory
