CONSTANTS
  Objects = {1, 2, 3}
  Settings = {1, 2}
  Inputs = {0, 1}
  MaxHist = 2
  Garbage = {0, 5}
SPECIFICATION Spec
INVARIANT FunctionOfHistory
CHECK_DEADLOCK FALSE
