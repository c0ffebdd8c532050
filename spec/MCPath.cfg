SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT Wide = TRUE
INVARIANTS Derivatives Connected Smooth RoundEnds RoundRadius Balanced TrajSane
CHECK_DEADLOCK FALSE
