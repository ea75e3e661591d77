CONSTANTS
  Mags = {0, 1, 2, 5}
  MaxFrames = 4
  Omegas = {0, 3, 12, 17}
  Turn = 8
SPECIFICATION Spec
INVARIANTS Definition Unwrapped First
PROPERTY Deviation
CHECK_DEADLOCK FALSE
