SPECIFICATION Spec
CONSTANTS
    Producers = {1, 2}
    Loops = {11}
    NPut = 3
    Burst = 2
    Multi = FALSE
INVARIANT NoViol
PROPERTY AllTaken
CHECK_DEADLOCK FALSE
