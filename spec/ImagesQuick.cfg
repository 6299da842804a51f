SPECIFICATION Spec
CONSTANTS
    NPositions = 2
    Layouts <- LayoutsQuick
    NMasks = 2
    Workers = {1, 2}
INVARIANTS Safe Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
