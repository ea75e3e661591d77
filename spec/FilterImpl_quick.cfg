CONSTANTS
  Spare = 2
  As <- MCAs
  Bs <- MCBs
  Values <- MCValues
  MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Computes History
CHECK_DEADLOCK FALSE
