CONSTANTS
  N = 3
  T = 3
  Vals = {0, 1, 3}
  Steep = 1
SPECIFICATION Spec
INVARIANTS DeltaIsBest PathIsBest
CHECK_DEADLOCK FALSE
