SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Calls = 1
  Width = 2
  Scratch = "shared"
  Table = "constant"
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
