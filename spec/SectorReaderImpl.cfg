SPECIFICATION Spec
CONSTANTS
    Files <- MCFiles
    NFrames = 3
    MaxCalls = 6
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
