SPECIFICATION Spec
CONSTANTS
    Calls = {"Slice", "BinScans", "BinScansIn", "BinFrames", "BinFramesIn", "Reshape", "Ravel"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
