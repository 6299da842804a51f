SPECIFICATION Spec
CONSTANTS
    NFrames = 2
    MaxCalls = 7
    MaxOther = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
