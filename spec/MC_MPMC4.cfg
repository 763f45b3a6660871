SPECIFICATION Spec
CONSTANTS
    B = 1
    NBlk = 2
    Free0 = 1
    Bounded = TRUE
    Script <- S4
INVARIANT Capacity
CHECK_DEADLOCK TRUE
