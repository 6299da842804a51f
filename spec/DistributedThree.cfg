SPECIFICATION Spec
CONSTANTS
  NRanks = 3
  NFiles = 4
  NFrames = 3
  NPositions = 4
  NSectors = 1
  Blocks = 2
  Runs = 1
INVARIANTS Partitions Right RightSamples Reason NoResultOnFailure NoDeadlock

CHECK_DEADLOCK TRUE
