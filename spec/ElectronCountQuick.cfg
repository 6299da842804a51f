SPECIFICATION Spec
CONSTANTS
  Workers = {w1, w2}
  NFrames = 4
  NPositions = 2
  Needed = 2
INVARIANTS RightResult RightEnd NobodyLeft OnlyComplete CountsLast AtMostOnce
CHECK_DEADLOCK FALSE
SYMMETRY SymWorkers
