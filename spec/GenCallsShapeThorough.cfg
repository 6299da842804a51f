SPECIFICATION Spec
CONSTANTS
    Calls = {"Slice", "BinScans", "BinScansIn", "BinFrames", "BinFramesIn", "Reshape", "Ravel", "Reduce", "Set"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
