SPECIFICATION Spec
CONSTANTS
  NRanks = 3
  NFiles = 4
  NFrames = 3
  NPositions = 3
  NSectors = 2
  Blocks = 1
  Runs = 2
INVARIANTS Partitions Right RightSamples Reason NoResultOnFailure NoDeadlock

CHECK_DEADLOCK TRUE
