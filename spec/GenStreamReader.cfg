SPECIFICATION Spec
CONSTANTS
    MaxFiles = 2
    MaxBlocks = 2
    MaxCalls = 6
    Truncate = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
