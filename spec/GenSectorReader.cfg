SPECIFICATION Spec
CONSTANTS
    NFrames = 2
    MaxCalls = 6
    MaxOther = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
