CONSTANTS
  MaxSpacing = 5
  FLens = {5, 7, 9, 15}
  Chunks = {0, 1, 2, 5}
  MaxIn = 12
SPECIFICATION Spec
INVARIANTS Aligned Complete Covers BufferSane Counts
CHECK_DEADLOCK FALSE
