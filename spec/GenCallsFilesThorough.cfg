SPECIFICATION Spec
CONSTANTS
    Calls = {"Write", "Rewrite", "Load", "LoadCrop", "Slice", "BinFrames", "MakeFile"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
