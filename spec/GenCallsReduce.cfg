SPECIFICATION Spec
CONSTANTS
    Calls = {"Slice", "BinScansIn", "BinFrames", "Reduce", "ReduceScan", "ReduceFrame", "Reshape", "Set"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
