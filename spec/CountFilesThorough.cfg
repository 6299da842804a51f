SPECIFICATION Spec
CONSTANTS
    Scans <- ScansThorough
    NPixels = 2
    MaxRows = 3
    MaxPer = 1
    MaxLen = 3
INVARIANTS Refines RoundTrip NoFlyback Complete
CHECK_DEADLOCK FALSE
