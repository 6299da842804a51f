SPECIFICATION Spec
CONSTANTS
    Threads = {t1,t2,t3}
    Files <- MC3x2
    NFrames = 2
    t1 = t1
    t2 = t2
    t3 = t3
INVARIANTS NoStreamShared HeldOrQueued AllocatedOnce CountIsExact WholeFrames ExactlyOnce OnlyComplete AllDelivered
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
