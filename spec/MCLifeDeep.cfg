SPECIFICATION Spec
CONSTANTS
    Depth = 4
    Kinds = {"jac", "jacdot", "dyn", "id", "fd", "hd", "treeid", "pinv", "givens", "nso", "wdls", "nr", "nrjl", "lma", "est"}
INVARIANTS Accepted Refuses ErrorKept InTables SetFits ToldIsEnough Padding
PROPERTY SetsLast
CHECK_DEADLOCK FALSE
