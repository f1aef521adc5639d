SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 3
    CAP = 65399
    ATO = 50000
    NP = 1
    W = 3
    MAXREADY = 2
    MAXOUT = 2
    CTL = FALSE
    TICK = 25000
    NOT = {}
