SPECIFICATION MCSpec
CONSTANTS MaxLen = 4 Exact = TRUE
INVARIANTS ReadsBack ShownIsMeant NotRefused
CHECK_DEADLOCK FALSE
