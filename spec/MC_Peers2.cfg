SPECIFICATION Spec
CONSTANTS
    MaxC = 4
    Nonces = {1, 2}
    Scripts <- S2
    Early = 0
INVARIANT NoViol Sane
PROPERTY Settles
CHECK_DEADLOCK FALSE
