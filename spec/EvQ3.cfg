SPECIFICATION Spec
CONSTANTS
    Producers = {1, 2, 3}
    Loops = {11}
    NPut = 2
    Burst = 1
    Multi = FALSE
INVARIANT NoViol
PROPERTY AllTaken
CHECK_DEADLOCK FALSE
