SPECIFICATION Spec
CONSTANTS
    Scans <- ScansQuick
    NPixels = 2
    MaxRows = 3
    MaxPer = 1
    MaxLen = 2
INVARIANTS Refines RoundTrip NoFlyback Complete
CHECK_DEADLOCK FALSE
