SPECIFICATION Spec
CONSTANTS Rates = {1, 2, 3, 5, 9, 20}
 MaxFactor = 8
 Ffts = {2, 4, 8}
 WindowOf <- W3
 MaxHeld = 4
 Careful = TRUE
INVARIANT HeldAsSpecified
INVARIANT WithinBlocks
INVARIANT RightDecimator
CHECK_DEADLOCK FALSE
