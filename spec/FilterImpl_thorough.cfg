CONSTANTS
  Spare = 3
  As <- MCAs
  Bs <- MCBs
  Values <- MCValues
  MaxSteps = 9
SPECIFICATION Spec
INVARIANTS Computes History
CHECK_DEADLOCK FALSE
