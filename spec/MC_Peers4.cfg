SPECIFICATION Spec
CONSTANTS
    MaxC = 3
    Nonces = {1, 2}
    Scripts <- S4
    Early = 0
INVARIANT NoViol Sane
PROPERTY Settles
CHECK_DEADLOCK FALSE
