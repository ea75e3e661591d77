CONSTANTS
  Threads = {1, 2, 3}
  Mutexes = {0, 1}
SPECIFICATION Spec
INVARIANTS Exclusion OwnersHold
CHECK_DEADLOCK FALSE
