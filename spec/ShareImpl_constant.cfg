SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Calls = 3
  Width = 3
  Scratch = "own"
  Table = "constant"
INVARIANTS AsAlone Disjoint
CHECK_DEADLOCK FALSE
