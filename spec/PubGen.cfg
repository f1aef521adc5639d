SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 3
    CAP = 65399
    RTO = 100000
    NS = 1
    W = 3
    MAXQ = 2
    MAXOUT = 2
    S = 0
    R = 0
    ANN = FALSE
