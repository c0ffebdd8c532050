SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Wide = FALSE
INVARIANTS Derivatives Connected Smooth RoundEnds RoundRadius Balanced TrajSane
CHECK_DEADLOCK FALSE
