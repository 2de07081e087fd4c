SPECIFICATION MCSpec
CONSTANTS Symbols <- SomeSymbols
 Stride = 13
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack OneModuleTells NothingElse
