SPECIFICATION MCSpec
CONSTANTS Symbols <- MoreSymbols
 Stride = 7
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack OneModuleTells NothingElse
