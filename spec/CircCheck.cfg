SPECIFICATION CheckSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    SIZES = {1, 2, 3, 5, 7}
