SPECIFICATION Spec
CONSTANTS
  Number = 3
  Workers = 1
  Calls = 1
  Discipline = "held"
INVARIANTS Counted NotFreed Results
