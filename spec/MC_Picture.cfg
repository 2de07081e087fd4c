CONSTANTS
  Depth = 2
  Sizes = {0, 1, 2, 3}
SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Grid IsCanvas SameToItself Magnified
