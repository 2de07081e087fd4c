SPECIFICATION MCSpec
CONSTANTS Alphabet = {27, 29, 64, 40, 65, 24}
 MaxLen = 7
INVARIANTS FormsAgree Partition NothingInvented Items
PROPERTY PrefixStable
CHECK_DEADLOCK FALSE
