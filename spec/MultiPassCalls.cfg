SPECIFICATION Spec
CONSTANTS
    Main = Main
    Threads = {t1,t2}
    Files <- MC2x2
    NFrames = 2
    NPos = 2
    MaxCalls = 3
    t1 = t1
    t2 = t2
INVARIANTS MapExact LocksHeld RightData ExactlyOnce ReadAllDone LoadDone
PROPERTIES Returns
CHECK_DEADLOCK FALSE
