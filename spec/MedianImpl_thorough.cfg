CONSTANTS
  Sizes = {1, 2, 3, 4, 5}
  Values <- MCValues
  MaxSteps = 8
SPECIFICATION Spec
INVARIANT IsStatistic
CHECK_DEADLOCK FALSE
