SPECIFICATION Spec
CONSTANTS
    Scans <- ScansMC1
    Frames <- FramesMC
    MaxFrames = 2
    MaxOps = 2
    Selectors <- SelectorsMC
    Factors = {1, 2}
    Wide = FALSE
INVARIANTS Faithful WellFormed RightReduction
CHECK_DEADLOCK FALSE
