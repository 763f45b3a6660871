SPECIFICATION Spec
CONSTANTS
    MaxC = 3
    Kinds = {"ok", "no"}
    Faults = 0
    Terms = 1
    Stops = FALSE
INVARIANT NoViol Sane
CHECK_DEADLOCK FALSE
