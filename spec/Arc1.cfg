SPECIFICATION Spec
CONSTANTS
    Start <- S1
    MaxOps = 2
INVARIANT NoViol Counts
CHECK_DEADLOCK FALSE
