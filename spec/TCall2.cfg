SPECIFICATION Spec
CONSTANTS
    Callers <- C2
    EndsLoop = TRUE
INVARIANT NoViol
PROPERTY Done
CHECK_DEADLOCK FALSE
