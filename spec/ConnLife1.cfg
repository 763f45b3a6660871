SPECIFICATION Spec
CONSTANTS
    MaxC = 2
    Kinds = {"ok", "no", "hole", "unreach"}
    Faults = 1
    Terms = 2
    Stops = TRUE
INVARIANT NoViol Sane
PROPERTY ComesToRest
CHECK_DEADLOCK FALSE
