SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 3
    CAP = 65399
    RTO = 100000
    NS = 3
    MAX = 2
    W = 1
