SPECIFICATION Spec
CONSTANTS
    Calls = {"SliceScan", "SliceFrame", "Slice", "BinScans", "BinFrames", "BinFramesIn", "Ravel", "Set"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
