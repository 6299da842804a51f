SPECIFICATION Spec
CONSTANTS
    NPositions = 4
    NFrames = 5
    Sizes = {1, 2, 3, 4}
    MaxResets = 1
INVARIANTS Refines Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
