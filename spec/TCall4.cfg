SPECIFICATION Spec
CONSTANTS
    Callers <- C4
    EndsLoop = TRUE
INVARIANT NoViol
PROPERTY Done
CHECK_DEADLOCK FALSE
