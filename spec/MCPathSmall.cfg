SPECIFICATION Spec
CONSTANT Depth = 1
CONSTANT Wide = TRUE
INVARIANTS Derivatives Connected Smooth RoundEnds RoundRadius Balanced TrajSane
CHECK_DEADLOCK FALSE
