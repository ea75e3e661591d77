CONSTANTS
  Tasks = {A, B, C}
  Rounds = 3
  Predicated = TRUE
  MaxSpurious = 3
  Order <- OrderAB
SPECIFICATION Spec
INVARIANTS Inv LocksHeldByOne
PROPERTIES Refines Completes AllWorkersEnd
