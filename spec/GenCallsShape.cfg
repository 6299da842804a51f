SPECIFICATION Spec
CONSTANTS
    Calls = {"Slice", "BinScans", "BinScansIn", "BinFrames", "BinFramesIn", "Reshape", "Ravel", "Reduce", "Set"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
