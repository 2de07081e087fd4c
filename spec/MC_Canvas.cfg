SPECIFICATION MCSpec
CONSTANTS
  Depth = 2
  Sizes = {0, 1, 2, 3}
INVARIANTS Filled PutOnlyThere TurnsEveryDot TurnsAgree PageStays FlipMirrors WiderCentres
CHECK_DEADLOCK FALSE
