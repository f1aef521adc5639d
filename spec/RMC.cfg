SPECIFICATION Spec
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 7
    CAP = 200
    RTO = 0
    ATO = 0
    PUBS = {1}
    SUBS = {1}
    W = 3
    LOSS = 1
    DUP = 1
    CLOSE = 0
    ANN = 1
    CTL = 0
    S = 0
    R = 0
    TIDY = TRUE
    WAIVE = FALSE
    PART = FALSE
INVARIANT Inv
PROPERTY Rest
CHECK_DEADLOCK FALSE
