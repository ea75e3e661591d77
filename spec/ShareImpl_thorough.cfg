SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3, 4}
  Calls = 3
  Width = 4
  Scratch = "own"
  Table = "guarded"
INVARIANTS AsAlone Disjoint
CHECK_DEADLOCK FALSE
