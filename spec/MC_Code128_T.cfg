SPECIFICATION MCSpec
CONSTANTS MaxLen = 5 Exact = FALSE
INVARIANTS ReadsBack ShownIsMeant NotRefused
CHECK_DEADLOCK FALSE
