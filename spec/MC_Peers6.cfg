SPECIFICATION Spec
CONSTANTS
    MaxC = 2
    Nonces = {1, 2}
    Scripts <- S6
    Early = 0
INVARIANT NoViol Sane
PROPERTY Settles
CHECK_DEADLOCK FALSE
