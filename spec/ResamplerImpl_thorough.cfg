CONSTANTS
  MaxSpacing = 9
  FLens = {9, 11, 15, 21, 31, 33}
  Chunks = {0, 1, 2, 3, 7, 11}
  MaxIn = 24
SPECIFICATION Spec
INVARIANTS Aligned Complete Covers BufferSane Counts
CHECK_DEADLOCK FALSE
