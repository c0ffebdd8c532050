SPECIFICATION Spec
CONSTANTS
    Depth = 3
    Types = {"Twist", "TwistVel"}
    Quick = TRUE
INVARIANTS Agree SameThing Local Harmless Accepted Refuses
CHECK_DEADLOCK FALSE
