SPECIFICATION Spec
CONSTANTS
    H = 2
    BodySizes = {1, 2}
    MaxFiles = 3
    MaxBlocks = 2
    MaxCalls = 6
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
