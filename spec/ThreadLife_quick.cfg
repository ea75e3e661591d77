CONSTANTS
  Objects = {a, b}
  Threads = {1, 2}
SPECIFICATION FairSpec
CONSTRAINT Bound
INVARIANTS OnceEach NoRunWithoutObject DistinctRunners
PROPERTIES WaitReturns DestroyReturns
CHECK_DEADLOCK FALSE
