CONSTANTS
  Filters <- MCFilters
  Stages = {1, 2}
  Values <- MCValues
  Blocks = {2, 4}
  MaxIn = 8
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
