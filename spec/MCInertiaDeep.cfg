SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS EnergyInvariant ReferenceInvariant Moved Symmetric Additive AntiFrame
CHECK_DEADLOCK FALSE
