SPECIFICATION Spec
CONSTANTS
  Objects = {1}
  Cells = {1, 2}
  Clears = FALSE
  Reset0 = "assigns"
INVARIANTS NoLastingDamage StateClean
CHECK_DEADLOCK FALSE
