CONSTANTS
  Mags = {0, 1, 3}
  MaxFrames = 3
  Omegas = {0, 3, 12, 17}
  Turn = 8
SPECIFICATION Spec
INVARIANTS Definition Unwrapped First
PROPERTY Deviation
CHECK_DEADLOCK FALSE
