SPECIFICATION Spec
CONSTANTS
    Senders = {1, 2}
    NMsg = 2
    U = 2
    SBuf = 1
    Blk = 1
    KCap = 3
    RCap = 3
    QCapN = 1
    Pauses = 1
    Attempts = 2
INVARIANT NoViol Bounded
PROPERTY AllDone
CHECK_DEADLOCK FALSE
