CONSTANTS
  Len0 = 6
  Vals = {0, 1, 3}
  Periods = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS CumIsBest PathIsBest Increasing InRange
CHECK_DEADLOCK FALSE
