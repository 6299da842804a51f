SPECIFICATION Spec
CONSTANTS
    NPositions = 3
    Layouts <- LayoutsThorough
    NMasks = 2
    Workers = {1, 2}
INVARIANTS Safe Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
