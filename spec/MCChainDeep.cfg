SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT Counts
PROPERTY Independent
CHECK_DEADLOCK FALSE
