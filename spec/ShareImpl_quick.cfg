SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Calls = 3
  Width = 3
  Scratch = "own"
  Table = "guarded"
INVARIANTS AsAlone Disjoint
PROPERTY AllDone
CHECK_DEADLOCK FALSE
