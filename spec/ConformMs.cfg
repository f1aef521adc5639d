SPECIFICATION Spec
INVARIANT CoreInv
CHECK_DEADLOCK FALSE
CONSTANTS
    HDR = 20
    ACKSZ = 17
    CTLHDR = 3
    CAP = 65399
    RTO = 100
    ATO = 50
