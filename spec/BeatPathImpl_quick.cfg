CONSTANTS
  Len0 = 5
  Vals = {0, 1, 3}
  Periods = {1, 2}
SPECIFICATION Spec
INVARIANTS CumIsBest PathIsBest Increasing InRange
CHECK_DEADLOCK FALSE
