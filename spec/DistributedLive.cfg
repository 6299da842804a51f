SPECIFICATION Spec
CONSTANTS
  NRanks = 2
  NFiles = 2
  NFrames = 2
  NPositions = 2
  NSectors = 2
  Blocks = 1
  Runs = 1
INVARIANTS Partitions Right RightSamples Reason NoResultOnFailure NoDeadlock
PROPERTIES Ends
CHECK_DEADLOCK TRUE
