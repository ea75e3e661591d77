SPECIFICATION Spec
CONSTANTS
  Objects = {1}
  Cells = {1, 2}
  Clears = TRUE
  Reset0 = "scales"
INVARIANTS NoLastingDamage StateClean
CHECK_DEADLOCK FALSE
