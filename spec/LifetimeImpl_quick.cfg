SPECIFICATION Spec
CONSTANTS Objects = {1, 2}
 Members = {1, 2, 3}
 Settings = {1, 2}
 MaxBlocks = 8
 MaxId = 12
 Disciplined = {"reject", "initialise", "early"}
CONSTRAINT Few
INVARIANT OneHolder
INVARIANT Live
INVARIANT NothingWrong
INVARIANT Bounded
INVARIANT NothingAfterAll
CHECK_DEADLOCK FALSE
