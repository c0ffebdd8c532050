SPECIFICATION Spec
CONSTANTS
    Kinds = {"eq.v", "eq.t", "eq.w", "eq.j1v", "eq.j1d", "eq.j2d", "eq.j2v", "eq.f"}
    Pairs = TRUE
    Devs = {89, 91, 109, 111}
INVARIANTS Decided JetsDecided
CHECK_DEADLOCK FALSE
