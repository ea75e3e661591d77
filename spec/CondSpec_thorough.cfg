CONSTANTS
  Threads = {1, 2, 3}
  Timeouts = {0, 1, 2}
  MaxTime = 4
  MaxSpurious = 1
  Slack = 0
SPECIFICATION Spec
INVARIANTS Sane NoSignalLost
CHECK_DEADLOCK FALSE
