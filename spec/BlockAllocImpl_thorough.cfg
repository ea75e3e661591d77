CONSTANTS
  PerBlock = 3
  MaxBlocks = 2
  MaxLive = 6
SPECIFICATION Spec
INVARIANTS InMemory OwnersDistinct Counts RoomExact FreeChain
PROPERTIES Refines
CHECK_DEADLOCK FALSE
