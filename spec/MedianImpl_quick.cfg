CONSTANTS
  Sizes = {1, 2, 3, 4, 5}
  Values <- MCValues
  MaxSteps = 6
SPECIFICATION Spec
INVARIANT IsStatistic
CHECK_DEADLOCK FALSE
