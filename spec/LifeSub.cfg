SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 3
    CAP = 65399
    ATO = 50000
    NP = 2
    MAX = 1
    MAXREADY = 1
    BAD = 2
