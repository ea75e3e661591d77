CONSTANTS
  Tasks = {A}
  Rounds = 2
  Predicated = FALSE
  MaxSpurious = 2
  Order <- OrderAB
SPECIFICATION Spec
INVARIANTS Inv LocksHeldByOne
PROPERTIES Refines Completes AllWorkersEnd
