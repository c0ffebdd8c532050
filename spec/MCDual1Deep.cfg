SPECIFICATION Spec
CONSTANTS Order = 2 Depth = 3
INVARIANTS Trigonometry Inverses Rigid Group Velocity
CHECK_DEADLOCK FALSE
