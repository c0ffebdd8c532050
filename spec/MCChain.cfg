SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Counts
PROPERTY Independent
CHECK_DEADLOCK FALSE
