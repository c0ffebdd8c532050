SPECIFICATION Spec
CONSTANTS Order = 3 Depth = 3
INVARIANTS Trigonometry Inverses Rigid Group Velocity
CHECK_DEADLOCK FALSE
