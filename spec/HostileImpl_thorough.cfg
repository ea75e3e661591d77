SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Cells = {1, 2, 3}
  Clears = TRUE
  Reset0 = "assigns"
INVARIANTS NoLastingDamage StateClean
CHECK_DEADLOCK FALSE
