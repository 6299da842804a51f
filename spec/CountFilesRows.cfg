SPECIFICATION Spec
CONSTANTS
    Scans <- ScansRows
    NPixels = 2
    MaxRows = 4
    MaxPer = 2
    MaxLen = 3
INVARIANTS Refines RoundTrip NoFlyback Complete
CHECK_DEADLOCK FALSE
