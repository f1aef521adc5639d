SPECIFICATION CheckSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    MAXA = 3
    MAXB = 2
    KEYS = {1, 2}
