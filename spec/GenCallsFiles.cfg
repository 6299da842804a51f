SPECIFICATION Spec
CONSTANTS
    Calls = {"Write", "Rewrite", "Load", "LoadCrop", "Slice", "BinFrames", "MakeFile"}
    Length = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
