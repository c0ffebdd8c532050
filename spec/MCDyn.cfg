SPECIFICATION Spec
CONSTANTS
    Depth = 2
    Branches = TRUE
INVARIANTS InertiaIsKinetic SumOfParts Lagrange GravityIsSlope EnergyBalance WrenchWork ForwardInvertsInverse FreeMotion TreeIsBranches
CHECK_DEADLOCK FALSE
