CONSTANTS
  Tasks = {A, B}
  Rounds = 2
  Predicated = TRUE
  MaxSpurious = 2
  Order <- OrderAB
SPECIFICATION Spec
INVARIANTS Inv LocksHeldByOne
PROPERTIES Refines Completes AllWorkersEnd
