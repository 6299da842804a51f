SPECIFICATION Spec
CONSTANTS
  Number = 2
  Workers = 1
  Calls = 2
  Discipline = "held"
INVARIANTS Counted NotFreed Results
PROPERTY Ends
