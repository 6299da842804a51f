SPECIFICATION Spec
CONSTANTS
  Number = 2
  Workers = 2
  Calls = 2
  Discipline = "held"
INVARIANTS Counted NotFreed Results
