CONSTANTS
  Threads = {1, 2, 3}
  Timeouts = {0, 1}
  MaxTime = 2
  MaxSpurious = 1
  Slack = 0
SPECIFICATION Spec
INVARIANTS Sane NoSignalLost
CHECK_DEADLOCK FALSE
