SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Calls = 1
  Width = 2
  Scratch = "own"
  Table = "unguarded"
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
