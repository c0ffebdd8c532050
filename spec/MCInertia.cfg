SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS EnergyInvariant ReferenceInvariant Moved Symmetric Additive AntiFrame
CHECK_DEADLOCK FALSE
