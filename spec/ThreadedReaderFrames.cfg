SPECIFICATION Spec
CONSTANTS
    Threads = {t1,t2}
    Files <- MC2x2
    NFrames = 3
    t1 = t1
    t2 = t2
INVARIANTS NoStreamShared HeldOrQueued AllocatedOnce CountIsExact WholeFrames ExactlyOnce OnlyComplete AllDelivered
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
