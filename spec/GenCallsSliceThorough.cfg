SPECIFICATION Spec
CONSTANTS
    Calls = {"SliceScan", "SliceFrame", "Slice", "BinScans", "BinFrames", "BinFramesIn", "Ravel", "Set"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
