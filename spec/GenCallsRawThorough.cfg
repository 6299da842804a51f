SPECIFICATION Spec
CONSTANTS
    Calls = {"Convert", "Save", "SaveStem", "Open", "Make", "Read", "Reset"}
    Length = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
