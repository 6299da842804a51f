SPECIFICATION Spec
CONSTANTS
    Calls = {"ReadAll", "Load", "LoadAll", "LoadBad", "NumFrames", "NumPerScan", "Scan"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
