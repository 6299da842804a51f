SPECIFICATION Spec
CONSTANTS
    Calls = {"Convert", "Save", "SaveStem", "Open", "Make", "Read", "Reset"}
    Length = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
