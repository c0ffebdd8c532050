SPECIFICATION Spec
CONSTANTS
    Depth = 3
    Types = {"Twist", "TwistVel", "Wrench", "VectorVel", "FrameVel"}
    Quick = FALSE
INVARIANTS Agree SameThing Local Harmless Accepted Refuses
CHECK_DEADLOCK FALSE
