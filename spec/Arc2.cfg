SPECIFICATION Spec
CONSTANTS
    Start <- S2
    MaxOps = 3
INVARIANT NoViol Counts
CHECK_DEADLOCK FALSE
