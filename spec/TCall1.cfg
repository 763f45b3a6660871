SPECIFICATION Spec
CONSTANTS
    Callers <- C1
    EndsLoop = FALSE
INVARIANT NoViol
PROPERTY Done
CHECK_DEADLOCK FALSE
