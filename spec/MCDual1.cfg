SPECIFICATION Spec
CONSTANTS Order = 2 Depth = 2
INVARIANTS Trigonometry Inverses Series Rigid Group Velocity
CHECK_DEADLOCK FALSE
