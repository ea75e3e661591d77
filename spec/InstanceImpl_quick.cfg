CONSTANTS
  Objects = {1, 2}
  Settings = {1, 2}
  Inputs = {0, 1}
  MaxHist = 3
  Garbage = {0, 5}
SPECIFICATION Spec
INVARIANT FunctionOfHistory
CHECK_DEADLOCK FALSE
