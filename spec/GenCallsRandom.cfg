SPECIFICATION Spec
CONSTANTS
    Calls = {"All", "Int", "Slice", "List", "Mask", "BadPos", "NumPerScan", "Scan"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
