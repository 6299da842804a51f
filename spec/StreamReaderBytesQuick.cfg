SPECIFICATION Spec
CONSTANTS
    H = 2
    BodySizes = {1, 2}
    MaxFiles = 2
    MaxBlocks = 2
    MaxCalls = 5
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
