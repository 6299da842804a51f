SPECIFICATION Spec
CONSTANTS
  Workers = {w1, w2}
  NFrames = 3
  NPositions = 2
  Needed = 1
INVARIANTS RightResult RightEnd NobodyLeft OnlyComplete CountsLast AtMostOnce
CHECK_DEADLOCK FALSE
PROPERTY Terminates
