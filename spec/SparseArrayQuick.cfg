SPECIFICATION Spec
CONSTANTS
    Scans <- ScansMC
    Frames <- FramesMC
    MaxFrames = 1
    MaxOps = 1
    Selectors <- SelectorsMC
    Factors = {1, 2}
    Wide = FALSE
INVARIANTS Faithful WellFormed RightReduction
CHECK_DEADLOCK FALSE
