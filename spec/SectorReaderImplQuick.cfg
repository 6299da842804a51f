SPECIFICATION Spec
CONSTANTS
    Files <- MCFiles2
    NFrames = 3
    MaxCalls = 5
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
