SPECIFICATION Spec
CONSTANTS
    Calls = {"Slice", "BinScansIn", "BinFrames", "Reduce", "ReduceScan", "ReduceFrame", "Reshape", "Set"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
