CONSTANTS
  MaxLen = 9
  Frames = {1, 2, 3, 4, 6}
  Hops = {1, 2, 3, 5, 8}
  MaxCalls = 12
SPECIFICATION Spec
INVARIANTS FrameRight Inside Cover
CHECK_DEADLOCK FALSE
