SPECIFICATION ESpec
CONSTANTS
    Depth = 3
    Branches = FALSE
    Moves1 = 12
    Rests = 20
INVARIANTS Settles SeesNothing FindsWrench
CHECK_DEADLOCK FALSE
