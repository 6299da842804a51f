SPECIFICATION Spec
CONSTANTS
  NRanks = 2
  NFiles = 3
  NFrames = 2
  NPositions = 2
  NSectors = 2
  Blocks = 1
  Runs = 2
INVARIANTS Partitions Right RightSamples Reason NoResultOnFailure NoDeadlock

CHECK_DEADLOCK TRUE
