SPECIFICATION Spec
CONSTANTS Universe = {"a", "b", "c"}
          Values = {0, 1, 2}
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
