SPECIFICATION Spec
CONSTANTS
    Producers = {1, 2}
    Loops = {11, 12}
    NPut = 2
    Burst = 2
    Multi = TRUE
INVARIANT NoViol
PROPERTY AllTaken
CHECK_DEADLOCK FALSE
