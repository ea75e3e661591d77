CONSTANTS
  PerBlock = 2
  MaxBlocks = 3
  MaxLive = 5
SPECIFICATION Spec
INVARIANTS InMemory OwnersDistinct Counts RoomExact FreeChain
PROPERTIES Refines
CHECK_DEADLOCK FALSE
