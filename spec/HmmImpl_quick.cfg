CONSTANTS
  N = 2
  T = 3
  Vals = {0, 1}
SPECIFICATION Spec
INVARIANTS GammaIsPosterior XiIsPosterior SameTotal
CHECK_DEADLOCK FALSE
