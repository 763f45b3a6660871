SPECIFICATION Spec
CONSTANTS
    B = 1
    NBlk = 4
    Free0 = 0
    Bounded = FALSE
    Script <- S1
INVARIANT Capacity
CHECK_DEADLOCK TRUE
