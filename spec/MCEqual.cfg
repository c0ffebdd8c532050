SPECIFICATION Spec
CONSTANTS
    Kinds = {"eq.v", "eq.m", "eq.f", "eq.t", "eq.w", "eq.j1v", "eq.j2v", "eq.j1m", "eq.j2m", "eq.j1f", "eq.j2f", "eq.j1t", "eq.j2t", "eq.j1d", "eq.j2d"}
    Pairs = FALSE
    Devs = {89, 91, 100, 109, 130}
INVARIANTS Decided JetsDecided
CHECK_DEADLOCK FALSE
