SPECIFICATION Spec
CONSTANTS
    Callers <- C3
    EndsLoop = FALSE
INVARIANT NoViol
PROPERTY Done
CHECK_DEADLOCK FALSE
